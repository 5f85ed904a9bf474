--------------------------- MODULE TraceCommands ---------------------------
(* Are the settings after recorded command lines those of SarCommands?       *)
(* "cmd": one line and the settings when it had had its effect.  "par":      *)
(* lines entered at the same time; some order of them explains the settings. *)
EXTENDS SarCommands, Json, IOUtils, TLC
VARIABLES done, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Advance == l' = l + 1 /\ done' = {}

TReset == ev.e = "reset" /\ settings' = ev.settings /\ Advance
TCmd == /\ ev.e = "cmd" /\ ev.res = "ok"
        /\ ev.after \in Effects(settings, ev.words)
        /\ settings' = ev.after /\ Advance
\* lines one after the other as "key" presses: nobody waits for them to end
TPar == /\ ev.e = "par" /\ ev.res = "ok"
        /\ \E i \in (1 .. Len(ev.lines)) \ done :
             /\ Command(ev.lines[i])
             /\ done' = done \cup {i}
        /\ l' = l
TJoin == /\ ev.e = "par" /\ ev.res = "ok" /\ done = 1 .. Len(ev.lines)
         /\ settings = ev.after /\ UNCHANGED settings /\ Advance

TraceInit == l = 1 /\ done = {} /\ settings = [none |-> 0]
TraceNext == l <= Len(Trace) /\ (TReset \/ TCmd \/ TPar \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, settings>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
