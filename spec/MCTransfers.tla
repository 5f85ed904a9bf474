----------------------------- MODULE MCTransfers -----------------------------
(* Exhaustive check of SarTransfers on a small tree, and the generator.       *)
EXTENDS SarTransfers, Json, TLC
CONSTANTS Depth, Names, Types, Keep       \* Keep: histories are kept (the generator)
VARIABLES n, hist
vars == << tree, xfers, used, n, hist >>

A == << 97 >>  D == << 100 >>  X == << 120 >>  O == << 111 >>  S == << 115, 97, 114 >>
Ent(p, k, d) == [p |-> p, k |-> k, d |-> d, m |-> ""]
Tree0 == { Ent(<< >>, "dir", << >>), Ent(<< S >>, "dir", << >>), Ent(<< O >>, "file", << 1 >>),
           Ent(<< S, A >>, "file", << 3 >>), Ent(<< S, D >>, "dir", << >>) }
NamesOf == << << A >>, << X >>, << D, DotDot, X >>, << D >>, << D, X >>, << X, X >>, << DotDot, O >>, << A, << >> >> >>
RECURSIVE Joined(_)
Joined(cs) == IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o << 47 >> \o Joined(Tail(cs))
Starts == { [ttype |-> y, peer |-> p, fname |-> Joined(NamesOf[k]), comps |-> NamesOf[k], reach |-> TRUE] :
            y \in Types, p \in {1, 2}, k \in Names }

Init == tree = Tree0 /\ xfers = {} /\ used = {} /\ n = 0 /\ hist = << >>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E s \in Starts :
                /\ \/ Start(s, n) \/ (~CanStart(tree, xfers, s) /\ Refuse(s))
                /\ hist' = IF Keep THEN Append(hist, [op |-> "start", ttype |-> s.ttype, peer |-> s.peer, fname |-> s.fname, i |-> 0]) ELSE hist
           \/ \E k \in 0 .. (n - 1) :
                \* the transfer started by step k, be it there or not any more
                /\ k \in used
                /\ LET w == { x \in xfers : x.session = k } IN
                   IF w = {} THEN UNCHANGED tvars ELSE Remove(Key(CHOOSE x \in w : TRUE))
                /\ hist' = IF Keep THEN Append(hist, [op |-> "remove", ttype |-> "", peer |-> 1, fname |-> << >>, i |-> k]) ELSE hist
Spec == Init /\ [][Next]_vars

Untouched == Tree0 \subseteq tree /\ Outside(tree) = Outside(Tree0)
NewAreEmpty == \A e \in tree \ Tree0 : e.d = << >> /\ Under(Root, e.p) /\ IsDir(tree, Parent(e.p))
Small == [][/\ Cardinality(xfers' \ xfers) <= 1 /\ Cardinality(xfers \ xfers') <= 1
            /\ tree \subseteq tree' /\ Cardinality(tree' \ tree) <= 1
            /\ tree' # tree => xfers' # xfers]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
