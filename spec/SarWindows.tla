----------------------------- MODULE SarWindows -----------------------------
(***************************************************************************)
(* The windows of the user interface: what is printed in which, which of   *)
(* them takes the keys and whether the packets are shown.                  *)
(*                                                                         *)
(* text is, for each window but the command line, its lines, the last one  *)
(* the one that is printed on; << >> if nothing was printed.  What is      *)
(* printed is given as its lines too: << "a", "" >> is "a" and a newline.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES text, cur, shown
winvars == << text, cur, shown >>
Wins == {"msg", "err", "packet"}
Empty == [w \in Wins |-> << >>]

Written(ls, p) == IF ls = << >> THEN p
                  ELSE SubSeq(ls, 1, Len(ls) - 1) \o << ls[Len(ls)] \o p[1] >> \o Tail(p)
Printed(t, w, p) == [t EXCEPT ![w] = Written(@, p)]
Cleared(t, w)    == [t EXCEPT ![w] = << >>]

Put(w, p) == text' = Printed(text, w, p) /\ UNCHANGED << cur, shown >>
Clear(w)  == text' = Cleared(text, w) /\ UNCHANGED << cur, shown >>

\* Ctrl-Space goes to the next window, to the packets only if they are shown
After(c, s) == CASE c = "cmd" -> "msg" [] c = "msg" -> (IF s THEN "packet" ELSE "err")
                 [] c = "packet" -> "err" [] c = "err" -> "cmd"
Rotate == cur' = After(cur, shown) /\ UNCHANGED << text, shown >>
\* Ctrl-P shows or hides the packets
Toggle == shown' = ~shown /\ UNCHANGED << text, cur >>
\* another size of the terminal, a key that is not for the window
Nothing == UNCHANGED winvars
=============================================================================
