----------------------------- MODULE SarCommands -----------------------------
(***************************************************************************)
(* The operator's settings and the command lines that change them.         *)
(*                                                                         *)
(* Settings: [global (flag name -> value), timestamp, timezone, and as     *)
(* 8-byte numbers bcount, binterval, metadata, request, status,            *)
(* datacounter, transfer; rest: everything else that is configured].       *)
(* A command line is a sequence of words [w, num, odd, n]: the word, is it *)
(* a decimal number from 0 to 2^63-1, is it such a number but written      *)
(* oddly ("+5", "-0": open whether it is taken), and the number.           *)
(***************************************************************************)
EXTENDS SarBytes, FiniteSets

VARIABLE settings

N8(n) == Zeros(4) \o ToB4(n)

\* the commands with one word out of a list: what the word sets
Same(S) == [x \in S |-> x]
OnOff == [on |-> "yes", off |-> "no", capable |-> "capable"]
Choices == [
  checksum   |-> [off |-> "none", none |-> "none", crc32 |-> "crc32", md5 |-> "md5", sha1 |-> "sha1"],
  descriptor |-> [auto |-> "d64", d16 |-> "d16", d32 |-> "d32", d64 |-> "d64"],
  freespace  |-> Same({"yes", "no"}),
  reqtstamp  |-> Same({"yes", "no"}),
  stream     |-> Same({"yes", "no"}),
  rxwilling  |-> OnOff,
  txwilling  |-> OnOff ]
Flag(c) == IF c = "checksum" THEN "csumtype" ELSE c
Stamps == { << "32", "posix32" >>, << "32_32", "posix32_32" >>, << "64", "posix64" >>, << "64_32", "posix64_32" >>,
            << "32_y2k", "epoch2000_32" >>, << "local", "localinterp" >> }
Timeouts == {"metadata", "request", "status", "datacounter", "transfer"}

Glob(s, f, v) == [s EXCEPT !.global = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN v ELSE @[x]]]
SetTimeout(s, f, v) == CASE f = "metadata" -> [s EXCEPT !.metadata = v] [] f = "request" -> [s EXCEPT !.request = v]
                         [] f = "status" -> [s EXCEPT !.status = v] [] f = "transfer" -> [s EXCEPT !.transfer = v]
                         [] f = "datacounter" -> [s EXCEPT !.datacounter = IF AllZero(v) THEN N8(100) ELSE v]
Number(w, s, t) == IF w.num THEN {t} ELSE IF w.odd THEN {s, t} ELSE {s}

\* the settings there may be after a command line
Effects(s, ws) ==
  IF ws = << >> THEN {s} ELSE
  LET c == ws[1].w
      a == IF Len(ws) >= 2 THEN ws[2].w ELSE "" IN
  IF Len(ws) = 2 THEN
    IF c \in DOMAIN Choices THEN {IF a \in DOMAIN Choices[c] THEN Glob(s, Flag(c), Choices[c][a]) ELSE s}
    ELSE IF c = "timestamp" THEN
      {IF a = "off" THEN Glob(s, "reqtstamp", "no")
       ELSE IF \E x \in Stamps : x[1] = a
       THEN Glob([s EXCEPT !.timestamp = (CHOOSE x \in Stamps : x[1] = a)[2]], "reqtstamp", "yes")
       ELSE s}
    ELSE IF c = "timezone" THEN {IF a \in {"local", "utc"} THEN [s EXCEPT !.timezone = a] ELSE s}
    ELSE IF c = "bcount" THEN Number(ws[2], s, [s EXCEPT !.bcount = ws[2].n])
    ELSE IF c = "interval" THEN
      IF a = "off" THEN {[s EXCEPT !.binterval = N8(0)]} ELSE Number(ws[2], s, [s EXCEPT !.binterval = ws[2].n])
    ELSE {s}
  ELSE IF Len(ws) = 3 /\ c = "timeout" /\ a \in Timeouts THEN
    IF ws[3].w = "off" THEN {SetTimeout(s, a, IF a = "datacounter" THEN N8(100) ELSE N8(60))}
    ELSE Number(ws[3], s, SetTimeout(s, a, ws[3].n))
  ELSE {s}

Command(ws) == \E s \in Effects(settings, ws) : settings' = s

\* what the protocol allows
Allowed == [csumtype |-> {"none", "crc32", "md5", "sha1"}, descriptor |-> {"d16", "d32", "d64", "d128"},
            freespace |-> {"yes", "no"}, reqtstamp |-> {"yes", "no"}, stream |-> {"yes", "no"},
            rxwilling |-> {"no", "invalid", "capable", "yes"}, txwilling |-> {"no", "invalid", "capable", "yes"}]
Valid(s) == /\ \A f \in DOMAIN Allowed : f \in DOMAIN s.global => s.global[f] \in Allowed[f]
            /\ s.timestamp \in {"localinterp"} \cup { x[2] : x \in Stamps }
            /\ s.timezone \in {"local", "utc"}
=============================================================================
