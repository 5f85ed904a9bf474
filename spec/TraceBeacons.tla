---------------------------- MODULE TraceBeacons ----------------------------
(* Are the datagrams that recorded commands sent those of SarBeacons?        *)
(* "set": some command that does not send, and the settings after it (they   *)
(* are judged by TraceCommands).  "beacon": one beacon command and what its  *)
(* targets and everyone else got, with the milliseconds since it began.      *)
(* "par": several of either at once, no two beacon commands with the same    *)
(* target; some order explains what was got.                                 *)
EXTENDS SarBeacons, Json, IOUtils
VARIABLES done, mc, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Advance == l' = l + 1 /\ done' = {}

To(t) == SelectSeq(ev.got, LAMBDA g : g.to = t)
Right(s, ws, mine) ==
  LET T == Targets(ws, mc) IN
  /\ \A t \in T : N8(Len(To(t))) = s.bcount
  /\ \A t \in T : \A k \in 1 .. Len(To(t)) :
       /\ IsBeaconOf(s, To(t)[k].frame, To(t)[k].src, ev.pid, ev.lo, ev.hi)
       /\ To(t)[k].ms >= (k - 1) * 1000 * Int4(Low(s.binterval, 4))
  /\ \A i \in 1 .. Len(ev.got) : ev.got[i].to \in T \cup (UNION { Targets(ws2, mc) : ws2 \in mine })

TReset == ev.e = "reset" /\ settings' = ev.settings /\ mc' = ev.mc /\ Advance
TSet == ev.e = "set" /\ ev.res = "ok" /\ settings' = ev.after /\ UNCHANGED mc /\ Advance
TBeacon == ev.e = "beacon" /\ ev.res = "ok" /\ Right(settings, ev.words, {}) /\ UNCHANGED << settings, mc >> /\ Advance
Beacons == { i \in 1 .. Len(ev.lines) : ev.lines[i][1].w = "beacon" }
TPar == /\ ev.e = "par" /\ ev.res = "ok"
        /\ \E i \in (1 .. Len(ev.lines)) \ done :
             /\ IF i \in Beacons
                THEN Right(settings, ev.lines[i], { ev.lines[j] : j \in Beacons }) /\ UNCHANGED settings
                ELSE Command(ev.lines[i])
             /\ done' = done \cup {i}
        /\ UNCHANGED << l, mc >>
TJoin == /\ ev.e = "par" /\ ev.res = "ok" /\ done = 1 .. Len(ev.lines)
         /\ UNCHANGED << settings, mc >> /\ Advance

TraceInit == l = 1 /\ done = {} /\ settings = [none |-> 0] /\ mc = [none |-> 0]
TraceNext == l <= Len(Trace) /\ (TReset \/ TSet \/ TBeacon \/ TPar \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, mc, settings>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
