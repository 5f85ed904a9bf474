---------------------------- MODULE TraceEditor ----------------------------
(* Did the keys do to the command line what SarEditor says?                  *)
EXTENDS SarEditor, Json, IOUtils, TLC
VARIABLES l
vars == << edvars, l >>
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
\* a line that starts a transfer is one that can be told to have been run by it
GetIt == << "g", "e", "t", " ", "1", "2", "7", ".", "0", ".", "0", ".", "1", " " >>
IsGet(x) == Len(x) > Len(GetIt) /\ SubSeq(x, 1, Len(GetIt)) = GetIt /\ \A i \in Len(GetIt) + 1 .. Len(x) : x[i] # " "
Starts(x) == IF IsGet(x) THEN << SubSeq(x, Len(GetIt) + 1, Len(x)) >> ELSE << >>

TReset == /\ ev.e = "reset" /\ ev.line = << >> /\ ev.cur = 0
          /\ lines' = ev.lines /\ first' = ev.number - Len(ev.lines) + 1 /\ at' = Len(ev.lines) /\ cur' = 0 /\ ran' = << >>
          /\ screen' = [w |-> ev.w, h |-> ev.h, p |-> ev.p]
TKey == /\ ev.e = "key" /\ ev.res = "ok"
        /\ CASE ev.k = "char" -> Type(ev.c) [] ev.k = "left" -> Left [] ev.k = "right" -> Right
             [] ev.k = "back" -> Back [] ev.k = "up" -> Up [] ev.k = "down" -> Down [] ev.k = "enter" -> Enter [] OTHER -> Elsewhere
        /\ ev.view = "cmd" => lines'[at'] = ev.line /\ cur' = ev.cur /\ first' + at' - 1 = ev.number
        /\ ran' = ran \o ev.ran
        /\ ev.started = IF ev.k = "enter" THEN Starts(line) ELSE << >>
TraceInit == l = 1 /\ lines = << << >> >> /\ first = 0 /\ at = 1 /\ cur = 0 /\ ran = << >> /\ screen = [w |-> 9, h |-> 9, p |-> 3]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TKey)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
