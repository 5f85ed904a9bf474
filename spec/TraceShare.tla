------------------------------ MODULE TraceShare -----------------------------
(* Is a recorded run, with the whole memory looked at after every operation, *)
(* a behaviour of SarShare?                                                  *)
EXTENDS SarShare, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]

Seen(g) == IF "none" \in DOMAIN g THEN None
           ELSE IF kind \in {"data", "status"}
           THEN [g EXCEPT !.ts = IF HasTs(g.hdr) THEN @ ELSE << >>] ELSE g
SeenAll(s) == [i \in 1 .. Len(s) |-> Seen(s[i])]

TReset == /\ ev.e = "reset"
          /\ kind' = ev.kind /\ bufs' = [i \in 1 .. ev.nb |-> << >>] /\ lists' = [i \in 1 .. ev.nl |-> << >>]
          /\ objs' = [i \in 1 .. ev.no |-> None] /\ pkts' = << >>
TOp ==
  /\ ev.e = "op" /\ ev.res \in {"ok", "err"}
  /\ LET ok == ev.res = "ok" IN
     CASE ev.op = "write" -> WriteBuf(ev.b, ev.x)
       [] ev.op = "list"  -> WriteList(ev.b, ev.x)
       [] ev.op = "dec"   -> DecodeInto(ev.o, ev.b, ok, Seen(ev.objs[ev.o]))
       [] ev.op = "make"  -> ok /\ MakeFrom(ev.o, ev.hdr, ev.session, ev.n, ev.b)
       [] ev.op = "enc"   -> objs[ev.o] # None /\ EncodeOf(ev.o, ok)
       [] ev.op = "val"   -> ok /\ PassOn(ev.o)
  /\ bufs' = ev.bufs /\ lists' = ev.lists
  /\ objs' = SeenAll(ev.objs) /\ pkts' = SeenAll(ev.pkts)

TraceInit == l = 1 /\ SInit("data", 0, 0, 0)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TOp)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, svars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
