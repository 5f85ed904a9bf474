----------------------------- MODULE TraceHoles -----------------------------
(* Is a recorded run of the implementation a behaviour of SarHoles?          *)
EXTENDS SarHoles, TLC, Json, IOUtils
VARIABLE l                                 \* next event of the trace

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
ev    == Trace[l]

TReset == ev.e = "reset" /\ recv' = {}

\* The observations of C01: the ranges kept
Obs01(S) == ev.fills = Ranges(S)
\* The observations of C02: the holes reported, and that reporting is pure
Obs02(S) == LET h == HolesOf(S) IN
            /\ ev.holes = h
            /\ ev.n = Len(h)
            /\ ev.again = h
            /\ ev.after = ev.fills
            /\ ev.kept

TAdd == /\ ev.e = "add"
        /\ ev.res = "ok"
        /\ Add(ev.s, ev.t)
        /\ (Prop = "C01" => Obs01(recv'))
        /\ (Prop = "C02" => Obs02(recv'))

TraceInit == l = 1 /\ HolesInit
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TAdd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, recv>>

Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
