------------------------------ MODULE TraceTime ------------------------------
(* Is a recorded run of one timestamp object a behaviour of SarTime?         *)
EXTENDS SarTime, TLC, Json, IOUtils
VARIABLES tv, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
None == [none |-> TRUE]

\* What is seen of the object afterwards: its bytes, its seconds, its print.
\* psec and pms are the printed time read back; what is printed for years
\* after 9999 and for nanoseconds out of range is left open.
LastPrintable == << 0, 0, 0, 58, 255, 244, 65, 127 >>
Printable(v) == ~Negative(TellsSecs(v)) /\ LessEq(TellsSecs(v), LastPrintable) /\ v.nsecs[1] < 128 /\ Int4(v.nsecs) < Billion
Seen(v) == /\ ev.put = TimeBytes(v)
           /\ ev.secs = v.secs
           /\ IF v.type = "localinterp" THEN ev.text = v.text
              ELSE Printable(v) => /\ ev.parsed /\ ev.psec = TellsSecs(v)
                                   /\ (v.type \in {"posix32_32", "posix64_32"} => ev.pms = Int4(v.nsecs) \div 1000000)

TReset == ev.e = "reset" /\ tv' = None
TNew == /\ ev.e = "new"
        /\ IF ev.type \notin TimeTypes THEN ev.res = "err" /\ tv' = None
           ELSE IF ~InstantFits(ev.type, ev.sec) THEN ev.res = "err" /\ tv' = None
           ELSE IF ev.res = "err" THEN InstantOpen(ev.type, ev.sec) /\ tv' = None
           ELSE ev.res = "ok" /\ tv' = TimeOf(ev.type, ev.sec, ev.nsec) /\ Seen(tv')
TNow == /\ ev.e = "now"
        /\ IF ev.type \notin TimeTypes THEN ev.res = "err" /\ tv' = None
           ELSE ev.res = "ok" /\ IsTimeBetween(ev.put, ev.type, ev.t0, ev.t1) /\ tv' = TimeVal(ev.put) /\ Seen(tv')
TGet == /\ ev.e = "get"
        /\ IF TimeDenoted(ev.bytes) THEN ev.res = "ok" /\ tv' = TimeVal(ev.bytes) /\ Seen(tv')
           ELSE ev.res = "err" /\ tv' = None
\* the bytes of the object itself, received again
TEcho == /\ ev.e = "echo" /\ tv # None /\ ev.res = "ok" /\ Seen(tv) /\ ev.same /\ UNCHANGED tv

TraceInit == l = 1 /\ tv = None
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TNew \/ TNow \/ TGet \/ TEcho)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tv>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
