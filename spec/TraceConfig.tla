----------------------------- MODULE TraceConfig -----------------------------
(* Is a recorded run of loading, copying and changing settings a behaviour   *)
(* of SarConfig?  Every event shows all the settings objects afterwards.     *)
EXTENDS SarConfig, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
NoCrash == ev.res \in {"ok", "err"}
OK == ev.res = "ok"
Seen == ev.all = objs'
TReset == ev.e = "reset" /\ objs' = << >> /\ tables' = << >>
\* a load that fails leaves nothing to rely on in that object
TLoad == /\ ev.e = "load" /\ NoCrash
         /\ IF ev.file = "good" /\ CfgValid(ev.cfg)
            THEN OK /\ Load(ev.o, ev.cfg, ev.env) /\ ev.tables = tables' /\ Seen
            ELSE ~OK /\ objs' = [x \in DOMAIN objs \ {ev.o} |-> objs[x]] /\ UNCHANGED tables
                 /\ \A x \in DOMAIN objs' : ev.all[x] = objs[x]
TCopy == ev.e = "copy" /\ OK /\ Copy(ev.o, ev.to) /\ Seen
TFlag == ev.e = "flag" /\ OK /\ SetFlag(ev.o, ev.f, ev.v) /\ Seen
TField == ev.e = "field" /\ OK /\ SetField(ev.o, ev.f, ev.v) /\ Seen
TTime == ev.e = "timeout" /\ OK /\ SetTimeout(ev.o, ev.f, ev.v) /\ Seen
TraceInit == l = 1 /\ CInit
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TLoad \/ TCopy \/ TFlag \/ TField \/ TTime)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cvars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
