----------------------------- MODULE TraceFlags -----------------------------
(* Is a recorded run of the header and flag list functions a behaviour of    *)
(* SarFlags?  The registers: a frame header, a directory entry header, a     *)
(* timestamp header, and a textual flag list.                                *)
EXTENDS Integers, SarFlags, TLC, Json, IOUtils
VARIABLES h, d, t, list, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
regs  == << h, d, t, list >>

TReset == /\ ev.e = "reset" /\ h' = ev.h /\ d' = ev.d /\ t' = ev.t /\ list' = ev.list

Tab == IF ev.tab = "d" THEN DirFields ELSE Fields
Cur == IF ev.tab = "d" THEN d ELSE h
NoCrash == ev.res \in {"ok", "err"}
\* set one field
TSet == /\ ev.e = "set" /\ ev.tab \in {"f", "d"} /\ NoCrash
        /\ LET good == ValidOpt(Tab, ev.field, ev.opt)
               new  == IF good THEN FSet(Tab, Cur, ev.field, ev.opt) ELSE Cur IN
           /\ ev.res = (IF good THEN "ok" ELSE "err")
           /\ ev.out = new
           /\ IF ev.tab = "d" THEN d' = new /\ UNCHANGED << h, t, list >> ELSE h' = new /\ UNCHANGED << d, t, list >>
TSetT == /\ ev.e = "set" /\ ev.tab = "t" /\ NoCrash
         /\ LET good == ev.opt \in DOMAIN TimeField.opts
                new  == IF good THEN << TCode(ev.opt) >> ELSE t IN
            /\ ev.res = (IF good THEN "ok" ELSE "err") /\ ev.out = new /\ t' = new
         /\ UNCHANGED << h, d, list >>
\* set several fields that do not overlap at once; invalid ones are left out
RECURSIVE SetAll(_, _)
SetAll(x, fs) == IF fs = << >> THEN x
                 ELSE SetAll(IF ValidOpt(Fields, fs[1][1], fs[1][2]) THEN Set(x, fs[1][1], fs[1][2]) ELSE x, Tail(fs))
TSetMany == /\ ev.e = "setmany" /\ NoCrash /\ ev.out = SetAll(h, ev.flags) /\ h' = ev.out /\ UNCHANGED << d, t, list >>
\* read a field in every way there is
TRead == /\ ev.e = "read" /\ NoCrash
         /\ IF ev.tab = "t" THEN
              ev.get = t[1] /\ ev.str = TName(t[1]) /\ ev.name = TName(t[1])
            ELSE LET known == Known(Tab, ev.field) IN
              /\ known => ev.get = FGet(Tab, Cur, ev.field)
              /\ ev.str = (IF known THEN FName(Tab, Cur, ev.field) ELSE "")
              /\ ev.name = ev.str
         /\ UNCHANGED regs
\* ask about a field and an option
TAsk == /\ ev.e = "ask" /\ NoCrash
        /\ IF ev.tab = "t" THEN ev.good = (ev.opt \in DOMAIN TimeField.opts)
           ELSE LET valid == ValidOpt(Tab, ev.field, ev.opt) IN
             /\ ev.good = Known(Tab, ev.field)
             /\ ev.valid = valid
             /\ ev.test = (IF valid THEN FGet(Tab, Cur, ev.field) = Code(Tab, ev.field, ev.opt) ELSE FALSE)
             /\ ev.tab = "f" => ev.value = (IF valid THEN Code(Tab, ev.field, ev.opt) ELSE -1)
        /\ UNCHANGED regs

\* lists
TAdd == /\ ev.e = "add" /\ NoCrash /\ list' = AddTo(Tab, list, ev.field, ev.opt) /\ ev.out = list' /\ UNCHANGED << h, d, t >>
TReplace == /\ ev.e = "replace" /\ NoCrash
            /\ list' = ev.out
            /\ IF ValidOpt(Tab, ev.field, ev.opt) THEN ev.out = ReplaceIn(Tab, list, ev.field, ev.opt)
               ELSE Others(ev.out, ev.field) = Others(list, ev.field)
                    /\ \A i \in 1 .. Len(ev.out) : ev.out[i][1] = ev.field => ev.out[i] \in { list[j] : j \in 1 .. Len(list) }
            /\ UNCHANGED << h, d, t >>
TValue == /\ ev.e = "value" /\ NoCrash /\ ev.out = ValueIn(list, ev.field) /\ UNCHANGED regs
\* the defaults of a frame type: the operator's settings are a function name -> value
TGlobal == /\ ev.e = "global" /\ NoCrash
           /\ LET fs == IF ev.ft \in DOMAIN FrameFields THEN FrameFields[ev.ft] \cap DOMAIN ev.settings ELSE {}
                  want == { << f, ev.settings[f] >> : f \in fs } IN
              { ev.out[i] : i \in 1 .. Len(ev.out) } = want /\ Len(ev.out) = Cardinality(fs)
           /\ UNCHANGED regs

TraceInit == l = 1 /\ h = Zeros(4) /\ d = Zeros(2) /\ t = Zeros(1) /\ list = << >>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ (TReset \/ TSet \/ TSetT \/ TSetMany \/ TRead \/ TAsk \/ TAdd \/ TReplace \/ TValue \/ TGlobal)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, regs>>
Accepted == LET k == TLCGet("stats").diameter IN
            IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", k>>, FALSE)
=============================================================================
