------------------------------ MODULE TraceSend ------------------------------
(* Is a recorded run of frames sent over the loopback a behaviour of         *)
(* SarSend?  Those of a "par" event were sent at the same time, so they may  *)
(* arrive in any order.                                                      *)
EXTENDS SarSend, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]

Shown(ft, g) == IF ft \in {"data", "status"} THEN [g EXCEPT !.ts = IF HasTs(g.hdr) THEN @ ELSE << >>] ELSE g
TReset == /\ ev.e = "reset" /\ socks' = ev.socks /\ inbox' = [r \in 1 .. Len(RFam) |-> << >>]
TClose == ev.e = "close" /\ Close(ev.s)
\* sending leaves the frame as it was
TSend  == /\ ev.e = "send" /\ ev.res \in {"ok", "err"}
          /\ Send(ev.s, ev.ft, Shown(ev.ft, ev.frame), ev.to, ev.res = "ok")
          /\ Shown(ev.ft, ev.after) = Shown(ev.ft, ev.frame)
Times(x, q) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : Times(p[i], p) = Times(p[i], q)
TRead  == /\ ev.e = "read" /\ ev.res = "ok"
          /\ \A r \in DOMAIN inbox : SameBag(inbox[r], ev.got[r])
          /\ ReadAll

\* a packet is for the address it was made with
TPacket   == ev.e = "val" /\ ev.res = "ok" /\ ev.got = ev.to /\ UNCHANGED nvars

TraceInit == l = 1 /\ NInit(<< >>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TClose \/ TSend \/ TPacket \/ TRead)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, nvars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
