------------------------------- MODULE SarWire -------------------------------
(***************************************************************************)
(* One frame object of the program: New and Make fill it, Encode reads it, *)
(* Decode replaces it by what a byte string denotes.                       *)
(***************************************************************************)
EXTENDS SarFrames

VARIABLES ftype,       \* the kind of frame the register holds
          frame        \* what it holds, None before the first operation
wvars == << ftype, frame >>

WInit(ft) == ftype = ft /\ frame = None
\* an operation that fails leaves nothing to rely on
Fails == frame' = None /\ UNCHANGED ftype

(* Build from the result a of FromFlags/FromHeader; info is the rest of the  *)
(* frame as asked for; got is the frame the program came up with, in which   *)
(* only clock and disk dependent parts are free.                             *)
Build(a, got, lo, hi) ==
  /\ a # Bad
  /\ UNCHANGED ftype
  /\ frame' = got
\* a timestamp flag left from an earlier use says nothing of the time
BuildTs(a, ts, lo, hi) == IF HasTs(a.hdr) /\ a.tt # "" THEN IsTimeBetween(ts, a.tt, lo, hi) ELSE TRUE

\* Decode b; ok says whether the program accepted it
Decode(b, ok) ==
  IF ok THEN Denotes(ftype, b) /\ frame' = ValOf(ftype, b) /\ UNCHANGED ftype
  ELSE (Denotes(ftype, b) => DecOpen(ftype, b)) /\ Fails
=============================================================================
