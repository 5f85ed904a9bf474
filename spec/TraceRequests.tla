---------------------------- MODULE TraceRequests ----------------------------
(* Is a recorded run of the request handler a behaviour of SarRequests?      *)
(* After each request the driver looks at the whole tree and at the list of  *)
(* transfers.  PROP says which property is judged; the state follows what    *)
(* was seen, so that one property does not answer for another.               *)
(* A "nreq" was sent to a running node.                                      *)
(* Requests of a "par" event were handled concurrently: some order of them   *)
(* must explain the answers and what is there after them.                    *)
EXTENDS SarRequests, Json, IOUtils
VARIABLES done, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Prop  == IOEnv.PROP
ToSet(s) == { s[i] : i \in 1 .. Len(s) }

Q(o) == [hdr |-> o.hdr, session |-> o.session, fname |-> o.fname, comps |-> o.comps]
\* the one answer of request o, to its sender, and its code
Answered(o) == /\ Len(o.answers) = 1
               /\ LET a == o.answers[1] IN
                  /\ a.to = o.peer
                  /\ StatusDenotes(a.b) /\ Name(a.b, "version") = "v1" /\ Name(a.b, "frametype") = "status"
                  /\ SubSeq(a.b, 5, 8) = o.session
Coded(o) == Len(o.answers) >= 1 /\ Len(o.answers[1].b) >= 4
Code1(o) == IF Coded(o) THEN Name(o.answers[1].b, "errcode") ELSE ""

t2 == Bare(ToSet(ev.tree))
SameTree == t2 = Bare(tree)
\* where a running node does not show its transfers they follow from its answers
Shown == IF ev.e = "nreq" THEN ev.shown ELSE TRUE
tr2 == IF Shown THEN ToSet(ev.trans)
       ELSE IF Code1(ev) = "success" /\ Admits(Q(ev)) THEN trans \cup {Entry(ev.peer, Q(ev))} ELSE trans

J13 == /\ Answered(ev)
       /\ Code1(ev) \in Codes(tree, trans, ev.peer, Q(ev))
       /\ Code1(ev) # "success" => SameTree /\ tr2 = trans /\ (Shown => Len(ev.trans) = Cardinality(tr2))
J14 == LET q == Q(ev)
           f == Faults(tree, trans, ev.peer, q)
           e == Entry(ev.peer, q) IN
  /\ \A i, j \in 1 .. Len(ev.trans) : ev.trans[i].peer = ev.trans[j].peer /\ ev.trans[i].session = ev.trans[j].session => i = j
  /\ trans \subseteq tr2 /\ tr2 \subseteq trans \cup {e}
  /\ Admits(q) => /\ Taken(trans, ev.peer, q) => Code1(ev) # "success"
                  /\ Taken(trans, ev.peer, q) /\ f = {"badrequest"} /\ ~Strange(tree, Named(q.comps)) => Code1(ev) = "badrequest"
                  /\ f = {} => Code1(ev) # "badrequest"
                  /\ f = {} /\ Code1(ev) = "success" => e \in tr2
  /\ tr2 # trans => Admits(q) /\ Code1(ev) = "success"
Odd(cs) == \E i \in 1 .. Len(cs) : cs[i] = DotDot \/ (i < Len(cs) /\ cs[i] = << >>)
J15 == LET q == Q(ev) IN
  /\ Outside(t2) = Outside(Bare(tree)) /\ Exists(t2, Root)
  /\ t2 = IF Type(q) = "delete" /\ Code1(ev) = "success" THEN Bare(Removed(tree, Named(q.comps))) ELSE Bare(tree)
  /\ Type(q) = "delete" /\ Code1(ev) = "success" => CanRemove(tree, Named(q.comps))
  /\ Odd(q.comps) /\ Coded(ev) => Code1(ev) \in Codes(tree, trans, ev.peer, q)

Advance == l' = l + 1 /\ done' = {}
Follow == tree' = t2 /\ trans' = tr2
TReset == ev.e = "reset" /\ tree' = Bare(ToSet(ev.tree)) /\ trans' = {} /\ Advance
TReq == /\ ev.e \in {"req", "nreq"}
        /\ ev.res = "ok" /\ (CASE Prop = "C13" -> J13 [] Prop = "C14" -> J14 [] Prop = "C15" -> J15)
        /\ Follow /\ Advance

\* when two delete the same thing the second may find it gone only when it tries
Late(o) == Type(Q(o)) = "delete" /\ ~Exists(tree, Named(o.comps)) /\ Code1(o) = "didnotdelete"
TPar == /\ ev.e = "par" /\ ev.res = "ok"
        /\ \E i \in (1 .. Len(ev.ops)) \ done :
             /\ \A j \in 1 .. (i - 1) : ev.ops[j].g = ev.ops[i].g => j \in done
             /\ Answered(ev.ops[i])
             /\ IF Late(ev.ops[i]) THEN UNCHANGED rvars
                ELSE Answer(ev.ops[i].peer, Q(ev.ops[i]), Code1(ev.ops[i]))
             /\ done' = done \cup {i}
        /\ l' = l
TJoin == /\ ev.e = "par" /\ ev.res = "ok" /\ done = 1 .. Len(ev.ops)
         /\ t2 = Bare(tree) /\ tr2 = trans /\ Len(ev.trans) = Cardinality(trans)
         /\ Follow /\ Advance

TraceInit == l = 1 /\ done = {} /\ tree = {} /\ trans = {}
TraceNext == l <= Len(Trace) /\ (TReset \/ TReq \/ TPar \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, rvars>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
