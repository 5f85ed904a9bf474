---------------------------- MODULE TraceWindows ----------------------------
(* Is a recorded run of the user interface a behaviour of SarWindows?        *)
(* Activities of a "par" event print and clear at the same time: for each    *)
(* window some order of their operations, each activity's in its own order,  *)
(* must explain what is in it afterwards.                                    *)
EXTENDS SarWindows, Json, IOUtils
VARIABLES done, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Advance == l' = l + 1 /\ done' = {}

\* the rest of what was seen; what the errors say of a key is left open
Same(t, u) == \A w \in Wins : u[w] = t[w]
Keeps(old, new) == old = << >> \/ (Len(new) >= Len(old) /\ SubSeq(new, 1, Len(old) - 1) = SubSeq(old, 1, Len(old) - 1))
Seen == /\ cur' = ev.cur /\ shown' = ev.shown
        /\ text'["msg"] = ev.text["msg"] /\ text'["packet"] = ev.text["packet"] /\ text'["err"] = ev.text["err"]
\* the line on the prompt is the one before the event, if there is room to see it
Line == ev.sight => ev.line = ev.was /\ ev.ran = << >>

TReset == /\ ev.e = "reset" /\ text' = ev.text /\ cur' = ev.cur /\ shown' = ev.shown /\ Advance
TPrint == ev.e = "print" /\ ev.res = "ok" /\ Put(ev.w, ev.p) /\ Seen /\ Line /\ Advance
TClear == ev.e = "clear" /\ ev.res = "ok" /\ Clear(ev.w) /\ Seen /\ Line /\ Advance
\* the command names the windows; it also says something in a window
TCommand == /\ ev.e = "clearcmd" /\ ev.res = "ok"
            /\ ev.cur = cur /\ ev.shown = shown /\ Line
            /\ \A w \in Wins : IF \E i \in 1 .. Len(ev.named) : ev.named[i] = w
                               THEN \A i \in 1 .. Len(ev.text[w]) : ev.text[w][i] # ev.marks[w]
                               ELSE Keeps(text[w], ev.text[w])
            /\ text' = ev.text /\ UNCHANGED << cur, shown >> /\ Advance
TRotate == /\ ev.e = "rotate" /\ ev.res = "ok"
           /\ cur' = After(cur, shown) /\ shown' = shown /\ text' = [text EXCEPT !["err"] = ev.text["err"]]
           /\ Keeps(text["err"], ev.text["err"]) /\ Seen /\ Line /\ Advance
TToggle == ev.e = "toggle" /\ ev.res = "ok" /\ Toggle /\ Seen /\ Line /\ Advance
TKey    == ev.e \in {"key", "resize"} /\ ev.res = "ok" /\ Nothing /\ Seen /\ Line /\ Advance

\* the command line is edited; when it is entered it is run
TEdit   == ev.e = "edit" /\ ev.res = "ok" /\ Nothing /\ Seen /\ ev.ran = << >> /\ Advance
Chars(x) == SubSeq(x, 3, Len(x))           \* after the number and the cursor
TEnter  == /\ ev.e = "enter" /\ ev.res = "ok" /\ text' = ev.text /\ UNCHANGED << cur, shown >> /\ Seen
           /\ \A w \in Wins : Keeps(text[w], ev.text[w])
           /\ IF Chars(ev.was) = << >> THEN ev.ran = << >> /\ ev.line = ev.was
              ELSE ev.ran = << Chars(ev.was) >> /\ Chars(ev.line) = << >> /\ ev.line[2] = "0"
           /\ Advance

TodoIn(w) == { i \in (1 .. Len(ev.ops)) \ done : ev.ops[i].w = w }
Win == CHOOSE w \in Wins : TodoIn(w) # {}
\* what is printed stays if the window is not cleared any more
Fits(ls, got, w, i) ==
  (\A j \in TodoIn(w) \ {i} : ev.ops[j].op # "clear") =>
     Len(ls) <= Len(got) /\ SubSeq(ls, 1, Len(ls) - 1) = SubSeq(got, 1, Len(ls) - 1)
TPar == /\ ev.e = "par" /\ ev.res = "ok" /\ done # 1 .. Len(ev.ops)
        /\ \E i \in TodoIn(Win) :
             /\ \A j \in 1 .. (i - 1) : ev.ops[j].g = ev.ops[i].g /\ ev.ops[j].w = Win => j \in done
             /\ LET t == IF ev.ops[i].op = "clear" THEN Cleared(text, Win) ELSE Printed(text, Win, ev.ops[i].p) IN
                Fits(t[Win], ev.text[Win], Win, i) /\ text' = t
             /\ done' = done \cup {i}
        /\ UNCHANGED << cur, shown, l >>
TJoin == /\ ev.e = "par" /\ ev.res = "ok" /\ done = 1 .. Len(ev.ops)
         /\ Nothing /\ Seen /\ Line /\ Advance

TraceInit == l = 1 /\ done = {} /\ text = Empty /\ cur = "cmd" /\ shown = FALSE
TraceNext == l <= Len(Trace) /\ (TReset \/ TPrint \/ TClear \/ TCommand \/ TRotate \/ TToggle \/ TKey \/ TEdit \/ TEnter \/ TPar \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, winvars>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
