------------------------------- MODULE SarTime -------------------------------
(***************************************************************************)
(* Timestamps.  An instant is a pair of the seconds since 1970 (8 bytes,   *)
(* two's complement) and the nanoseconds (4 bytes, below 10^9).  A         *)
(* timestamp value is [type, secs (8 bytes), nsecs (4 bytes), text]: secs  *)
(* count from 1970, for epoch2000_32 from 2000.                            *)
(***************************************************************************)
EXTENDS SarFlags

TimeTypes == DOMAIN TimeField.opts
Epoch2000 == << 0, 0, 0, 0, 56, 109, 67, 128 >>           \* 946684800
Z8 == Zeros(8)
Z4 == Zeros(4)
LocalText == << 108, 111, 99, 97, 108, 105, 110, 116, 101, 114, 112 >>  \* "localinterp"
TVal(t, s, n, x) == [type |-> t, secs |-> s, nsecs |-> n, text |-> x]

\* Does the instant fit the type?
Negative(s) == s[1] >= 128
InstantFits(t, s) ==
  CASE t \in {"posix32", "posix32_32"} -> Fits(s, 4)
    [] t = "epoch2000_32" -> ~Negative(s) /\ LessEq(Epoch2000, s) /\ Fits(Minus(s, Epoch2000), 4)
    [] OTHER -> TRUE
\* May it be refused?  (seconds before 1970 in 64 bits are left open)
InstantOpen(t, s) == t \in {"posix64", "posix64_32"} /\ Negative(s)

\* The timestamp of an instant that fits
TimeOf(t, s, n) ==
  CASE t \in {"posix32", "posix64"} -> TVal(t, s, Z4, << >>)
    [] t \in {"posix32_32", "posix64_32"} -> TVal(t, s, n, << >>)
    [] t = "epoch2000_32" -> TVal(t, Minus(s, Epoch2000), Z4, << >>)
    [] t = "localinterp" -> TVal(t, Z8, Z4, LocalText)

\* Where its fields are: the 16 bytes of a timestamp
TimeBytes(v) ==
  LET b == << TCode(v.type) >> \o
           (CASE v.type \in {"posix32", "epoch2000_32"} -> Low(v.secs, 4)
              [] v.type = "posix64" -> v.secs
              [] v.type = "posix32_32" -> Low(v.secs, 4) \o v.nsecs
              [] v.type = "posix64_32" -> v.secs \o v.nsecs
              [] v.type = "localinterp" -> v.text)
  IN b \o Zeros(16 - Len(b))

\* Bytes needed for each type, and the value they denote
TimeNeed(t) == CASE t \in {"posix32", "epoch2000_32"} -> 5 [] t \in {"posix64", "posix32_32"} -> 9
                 [] t = "posix64_32" -> 13 [] t = "localinterp" -> 15
RECURSIVE TrimZeros(_)
TrimZeros(b) == IF b = << >> \/ b[Len(b)] # 0 THEN b ELSE TrimZeros(SubSeq(b, 1, Len(b) - 1))
TimeDenoted(b) == Len(b) > 0 /\ TName(b[1]) # "" /\ Len(b) >= TimeNeed(TName(b[1]))
TimeVal(b) ==
  LET t == TName(b[1]) IN
  CASE t \in {"posix32", "epoch2000_32"} -> TVal(t, Wide(SubSeq(b, 2, 5)), Z4, << >>)
    [] t = "posix64" -> TVal(t, SubSeq(b, 2, 9), Z4, << >>)
    [] t = "posix32_32" -> TVal(t, Wide(SubSeq(b, 2, 5)), SubSeq(b, 6, 9), << >>)
    [] t = "posix64_32" -> TVal(t, SubSeq(b, 2, 9), SubSeq(b, 10, 13), << >>)
    [] t = "localinterp" -> TVal(t, Z8, Z4, TrimZeros(SubSeq(b, 2, 15)))

\* The instant a timestamp tells (seconds since 1970)
TellsSecs(v) == IF v.type = "epoch2000_32" THEN Plus(v.secs, Epoch2000) ELSE v.secs

\* The bytes of a timestamp taken between the clock readings lo and hi
Billion == 1000000000
IsTimeBetween(b, t, lo, hi) ==
  /\ Len(b) = 16 /\ TimeDenoted(b) /\ TName(b[1]) = t
  /\ LET v == TimeVal(b) IN
     /\ TimeBytes(v) = b
     /\ IF t = "localinterp" THEN v.text = LocalText
        ELSE /\ LessEq(lo, TellsSecs(v)) /\ LessEq(TellsSecs(v), hi)
             /\ v.nsecs[1] < 128 /\ Int4(v.nsecs) < Billion
=============================================================================
