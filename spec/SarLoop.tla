------------------------------- MODULE SarLoop -------------------------------
(***************************************************************************)
(* How datagrams go through a node: a listener for each address family     *)
(* reads them from its socket and hands them over to the one main loop,    *)
(* which does all the sending.                                             *)
(***************************************************************************)
EXTENDS SarNode
CONSTANTS Families, Grams            \* datagrams are 1 .. Grams
VARIABLES class, fam, sock, lst, main, answered, come
nvars == << class, fam, sock, lst, main, answered, come >>
Ids == 1 .. Grams
Idle == [st |-> "idle", d |-> 0, f |-> ""]

NodeInit == /\ class \in [Ids -> {"drop", "take", "ask", "bad"}] /\ fam \in [Ids -> Families]
            /\ sock = [f \in Families |-> << >>] /\ lst = [f \in Families |-> Idle] /\ main = Idle /\ answered = << >>
Arrive(d) == /\ d \notin come /\ come' = come \cup {d}
             /\ sock' = [sock EXCEPT ![fam[d]] = Append(@, d)]
             /\ UNCHANGED << class, fam, lst, main, answered >>
\* the listener reads a frame; what is to be answered at once goes to tx, the rest to rx
Read(f) == /\ lst[f] = Idle /\ sock[f] # << >>
           /\ sock' = [sock EXCEPT ![f] = Tail(@)]
           /\ LET d == sock[f][1] IN
              lst' = [lst EXCEPT ![f] = IF class[d] = "drop" THEN Idle
                                        ELSE [st |-> IF class[d] = "bad" THEN "tx" ELSE "rx", d |-> d, f |-> f]]
           /\ UNCHANGED << class, fam, main, answered, come >>
\* nobody waits in a channel: both have to be there
Hand(f) == /\ main = Idle /\ lst[f] # Idle
           /\ main' = IF lst[f].st = "tx" \/ class[lst[f].d] = "ask" THEN [lst[f] EXCEPT !.st = "send"] ELSE Idle
           /\ lst' = [lst EXCEPT ![f] = Idle]
           /\ UNCHANGED << class, fam, sock, answered, come >>
Transmit == /\ main.st = "send"
            /\ answered' = Append(answered, << main.f, main.d >>)
            /\ main' = Idle
            /\ UNCHANGED << class, fam, sock, lst, come >>
NodeNext == Transmit \/ (\E d \in Ids : Arrive(d)) \/ (\E f \in Families : Read(f) \/ Hand(f))
AtRest == main = Idle /\ \A f \in Families : sock[f] = << >> /\ lst[f] = Idle

\* answered once, over the family it came by, and only what is to be answered
OnceEach == /\ \A i, j \in 1 .. Len(answered) : answered[i][2] = answered[j][2] => i = j
            /\ \A i \in 1 .. Len(answered) : class[answered[i][2]] \in {"ask", "bad"} /\ answered[i][1] = fam[answered[i][2]]
            /\ AtRest => { answered[i][2] : i \in 1 .. Len(answered) } = { d \in come : class[d] \in {"ask", "bad"} }
\* the node never stops: unless it is at rest it can go on
Lively == AtRest \/ ENABLED (Transmit \/ \E f \in Families : Read(f) \/ Hand(f))
\* whatever came, a request gets its answer
Served == \A d \in Ids : (d \in come /\ class[d] = "ask") ~> (\E i \in 1 .. Len(answered) : answered[i][2] = d)
=============================================================================
