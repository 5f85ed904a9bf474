------------------------------- MODULE SarNode -------------------------------
(***************************************************************************)
(* A running node and the datagrams it receives.                           *)
(*                                                                         *)
(* Verdict(b, max): what datagram b is to a node whose interface allows    *)
(* frames of max bytes: "drop" (thrown away), "take" (accepted, no         *)
(* answer), "ask" (a request, answered with one status about it),          *)
(* "bad" and "version" (answered with one badpacket status).  Where the    *)
(* protocol leaves open whether a frame decodes there are two.             *)
(***************************************************************************)
EXTENDS SarFrames

Verdicts(b, max) ==
  IF Len(b) < 8 \/ Len(b) > max THEN {"drop"}
  ELSE IF Name(b, "version") # "v1" THEN {"version"}
  ELSE LET ft == Name(b, "frametype") IN
       IF ft \in {"data", "metadata", "status"}
       THEN IF ~Denotes(ft, b) THEN {"bad"} ELSE IF DecOpen(ft, b) THEN {"bad", "take"} ELSE {"take"}
       ELSE IF ft = "beacon" THEN {IF Denotes(ft, b) THEN "take" ELSE "drop"}
       ELSE IF ft = "request" THEN {IF Denotes(ft, b) THEN "ask" ELSE "drop"}
       ELSE {"drop"}

Answers(v) == IF v \in {"ask", "bad", "version"} THEN 1 ELSE 0
SessionOf(v, b) == IF v = "version" THEN Zeros(4) ELSE SubSeq(b, 5, 8)
\* is a an answer to b?
IsAnswer(v, b, a) ==
  /\ StatusDenotes(a) /\ ~StatusOpen(a) /\ Name(a, "version") = "v1" /\ Name(a, "frametype") = "status"
  /\ SubSeq(a, 5, 8) = SessionOf(v, b)
  /\ v \in {"bad", "version"} => Name(a, "errcode") = "badpacket" /\ StatusVal(a).holes = << >>

=============================================================================
