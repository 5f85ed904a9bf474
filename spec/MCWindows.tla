------------------------------ MODULE MCWindows ------------------------------
(* All histories of printing, clearing, keys and resizing.  In the second    *)
(* half of the model two activities print at the same time.                  *)
EXTENDS SarWindows, Json
CONSTANTS Depth, Keep
VARIABLES hist, all
vars == << text, cur, shown, hist, all >>

Msgs == { << "a" >>, << "b", "" >>, << "c", "d", "" >> }
Did(x) == hist' = IF Keep THEN Append(hist, x) ELSE Append(hist, 0)
Op(op, w, p) == [op |-> op, w |-> w, p |-> p]
Step ==
  \/ \E w \in Wins, p \in Msgs : /\ Put(w, p) /\ all' = [all EXCEPT ![w] = @ \o p] /\ Did(Op("print", w, p))
  \/ \E w \in Wins : Clear(w) /\ all' = [all EXCEPT ![w] = << >>] /\ Did(Op("clear", w, << >>))
  \/ Rotate /\ UNCHANGED all /\ Did(Op("rotate", "", << >>))
  \/ Toggle /\ UNCHANGED all /\ Did(Op("toggle", "", << >>))
  \/ Nothing /\ UNCHANGED all /\ Did(Op("key", "", << >>))
  \/ Nothing /\ UNCHANGED all /\ Did(Op("resize", "", << >>))
Init == text = Empty /\ cur = "cmd" /\ shown = FALSE /\ hist = << >> /\ all = Empty
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars

RECURSIVE Glue(_)
Glue(q) == IF q = << >> THEN "" ELSE q[1] \o Glue(Tail(q))
\* nothing is lost, doubled or put elsewhere
Whole == \A w \in Wins : Glue(text[w]) = Glue(all[w])
OneWindow == [][Cardinality({ w \in Wins : text[w] # text'[w] }) <= 1]_vars
\* wherever one is, the command line is at most three away, and all shown windows are on the way
RECURSIVE Reach(_, _, _)
Reach(c, s, n) == IF n = 0 THEN {c} ELSE {c} \cup Reach(After(c, s), s, n - 1)
Around == /\ "cmd" \in Reach(cur, shown, 3)
          /\ Reach("cmd", shown, 3) = IF shown THEN Wins \cup {"cmd"} ELSE {"cmd", "msg", "err"}
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
