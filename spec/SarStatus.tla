------------------------------ MODULE SarStatus ------------------------------
(***************************************************************************)
(* Reporting the status of a transfer: its holes go out in one or more     *)
(* status frames that fit the packets of the interface.                    *)
(*                                                                         *)
(* todo is what is still to be reported, sent the holes of each frame that *)
(* went out.  How the holes are cut up is open; that there are as few      *)
(* frames as can be is not.                                                *)
(***************************************************************************)
EXTENDS SarFrames

VARIABLES todo, sent
svars == << todo, sent >>

\* 60 bytes of IP header and 8 of UDP; 8 of header and session, the timestamp,
\* progress and in-response-to; each hole is two numbers
Room(mtu, h) == mtu - 68 - 8 - TsLen(h) - 2 * DWidth(h)
MaxHoles(mtu, h) == IF Room(mtu, h) < 2 * DWidth(h) THEN 0 ELSE Room(mtu, h) \div (2 * DWidth(h))
Least(n, mx) == IF n <= mx THEN 1 ELSE (n + mx - 1) \div mx

\* the gaps between (and before) the ranges received
Gaps(fs) == IF fs = << >> THEN << >>
            ELSE (IF AllZero(fs[1][1]) THEN << >> ELSE << << Zeros(8), fs[1][1] >> >>) \o
                 [i \in 1 .. (Len(fs) - 1) |-> << fs[i][2], fs[i + 1][1] >>]
Reported(h, fs) == IF Name(h, "errcode") = "success" THEN Gaps(fs) ELSE << >>

\* one more frame with the next k holes, if the rest can still go in as few
\* frames as can be
SendFrame(k, total, mx) ==
  /\ k \in 0 .. mx /\ k <= Len(todo)
  /\ Len(sent) < Least(total, mx)
  /\ Len(todo) - k <= (Least(total, mx) - Len(sent) - 1) * mx
  /\ sent' = Append(sent, SubSeq(todo, 1, k))
  /\ todo' = Drop(todo, k)
Done(total, mx) == todo = << >> /\ Len(sent) = Least(total, mx)
=============================================================================
