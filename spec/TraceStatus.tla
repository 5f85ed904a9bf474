----------------------------- MODULE TraceStatus -----------------------------
(* Are the frames sent by WriteStatus a report of SarStatus?                  *)
(* An event holds the flags (items), the MTU, the transfer (session, prog,    *)
(* inr, fills) and the datagrams that arrived at the peer.                    *)
EXTENDS SarStatus, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]

Want(items) == FromFlags("status", items)
Frame(i) == ev.frames[i]
\* the flags asked for, but allholes says whether this frame carries everything
HdrOK(h, g, all) == SubSeq(g, 1, 4) = Set(h, "allholes", IF all THEN "yes" ELSE "no")
RECURSIVE Cut(_, _)
Cut(hs, i) == \* the holes of frame i on, are they what is to be reported?
  IF i > Len(ev.frames) THEN hs = << >>
  ELSE LET v == StatusVal(Frame(i)).holes IN
       /\ Len(v) <= Len(hs) /\ SubSeq(hs, 1, Len(v)) = v
       /\ Cut(Drop(hs, Len(v)), i + 1)

Report ==
  LET f == Want(ev.items) IN
  IF f = Bad THEN ev.code # "success"
  ELSE LET h  == f.hdr
           w  == DWidth(h)
           mx == IF w < 16 THEN MaxHoles(ev.mtu, h) ELSE 0
           hs == Reported(h, ev.fills)
           n  == Least(Len(hs), mx) IN
  IF mx < 1 THEN TRUE
  ELSE IF ~StatusEncodable([hdr |-> h, session |-> ev.session, ts |-> << >>, prog |-> ev.prog, inr |-> ev.inr, holes |-> hs])
  THEN ev.code # "success"
  ELSE /\ ev.code = "success"
       /\ Len(ev.frames) = n
       /\ \A i \in 1 .. n : /\ StatusDenotes(Frame(i)) /\ ~StatusOpen(Frame(i))
                            /\ Len(Frame(i)) + 68 <= ev.mtu
                            /\ HdrOK(h, Frame(i), n = 1)
                            /\ SubSeq(Frame(i), 5, 8) = ev.session
                            /\ StatusVal(Frame(i)).prog = ev.prog /\ StatusVal(Frame(i)).inr = ev.inr
       /\ Cut(hs, 1)
       /\ ev.kept                                  \* the transfer is as it was

TReset == ev.e = "reset"
TStatus == ev.e = "status" /\ ev.res = "ok" /\ Report
TraceInit == l = 1 /\ todo = << >> /\ sent = << >>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED svars /\ (TReset \/ TStatus)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, svars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
