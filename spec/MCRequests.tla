----------------------------- MODULE MCRequests -----------------------------
(* Exhaustive check of SarRequests on a small tree, and the generators.      *)
EXTENDS SarRequests, Json
CONSTANTS Peers, Sessions, Depth, Wide1      \* Wide1: all headers (single requests)
VARIABLES hist, answered
vars == << tree, trans, hist, answered >>

A == << 97 >>  B == << 98 >>  D == << 100 >>  E == << 101 >>  R == << 114 >>  L == << 108 >>  O == << 111 >>
S == << 115, 97, 114 >>
Ent(p, k, d) == [p |-> p, k |-> k, d |-> d, m |-> ""]
Tree0 == { Ent(<< >>, "dir", << >>), Ent(<< S >>, "dir", << >>), Ent(<< O >>, "file", << 1 >>),
           Ent(<< << 115, 97, 114, 120 >> >>, "dir", << >>), Ent(<< << 115, 97, 114, 120 >>, A >>, "file", << 2 >>),
           Ent(<< S, A >>, "file", << 3 >>), Ent(<< S, D >>, "dir", << >>), Ent(<< S, D, B >>, "file", << 4 >>),
           Ent(<< S, E >>, "dir", << >>), Ent(<< S, R >>, "rodir", << >>), Ent(<< S, R, A >>, "file", << >>),
           Ent(<< S, L >>, "other", << >>) }
NamesOf == << << << >> >>, << A >>, << D >>, << D, B >>, << E >>, << B >>, << DotDot, O >>, << D, DotDot >>,
              << << >>, << >> >>, << DotDot, << 115, 97, 114, 120 >>, A >>, << R, A >>, << E, DotDot, A, << >> >>,
              << DotDot, S, A >>, << L >> >>
RECURSIVE Joined(_)
Joined(cs) == IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o << 47 >> \o Joined(Tail(cs))
H(v, l, s, rx, tx, y) ==
  LET h == Set(Set(Set(Set(Set(Set(Zeros(4), "version", v), "frametype", "request"), "udplite", l),
               "stream", s), "rxwilling", rx), "txwilling", tx) IN [h EXCEPT ![4] = y]
W == {"no", "invalid", "capable", "yes"}
Hdrs == IF Wide1
        THEN { H(v, l, s, rx, tx, y) : v \in {"v0", "v1"}, l \in {"no", "yes"}, s \in {"no", "yes"}, rx \in W, tx \in W, y \in 0 .. 7 }
        ELSE { H("v1", "no", "no", "yes", "yes", y) : y \in 0 .. 6 } \cup
             { H("v1", "no", "no", "capable", "no", y) : y \in {1, 2, 5} } \cup { H("v0", "no", "no", "yes", "yes", 5) }
\* sequences of requests: fewer names
Used == IF Wide1 THEN 1 .. Len(NamesOf) ELSE {2, 4, 5, 6, 7}
Reqs == { [hdr |-> h, session |-> s, fname |-> Joined(NamesOf[n]), comps |-> NamesOf[n]] : h \in Hdrs, s \in Sessions, n \in Used }

Init == tree = Tree0 /\ trans = {} /\ hist = << >> /\ answered = 0
MCNext == /\ answered < Depth /\ answered' = answered + 1 /\ UNCHANGED hist
          /\ \E peer \in Peers, q \in Reqs : \E c \in Codes(tree, trans, peer, q) : Answer(peer, q, c)
MCSpec == Init /\ [][MCNext]_vars

Safe == /\ Outside(tree) = Outside(Tree0) /\ Exists(tree, Root) /\ tree \subseteq Tree0
Keeps == [][trans \subseteq trans' /\ Cardinality(trans' \ trans) + Cardinality(tree \ tree') <= 1]_rvars
Total == answered < Depth => \A peer \in Peers, q \in Reqs : Codes(tree, trans, peer, q) # {}

GenNext == /\ Len(hist) < Depth /\ UNCHANGED answered
           /\ \E peer \in Peers, q \in Reqs :
                /\ hist' = Append(hist, [peer |-> peer, q |-> q])
                /\ LET f == Faults(tree, trans, peer, q) IN
                   IF f = {} THEN Answer(peer, q, "success") ELSE UNCHANGED rvars
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
