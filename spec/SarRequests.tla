----------------------------- MODULE SarRequests -----------------------------
(***************************************************************************)
(* Requests from remote hosts: what is answered, which transfers are       *)
(* admitted and what happens to the files.                                 *)
(*                                                                         *)
(* A request is [hdr (4 bytes), session (4 bytes), fname (bytes), comps    *)
(* (fname cut at "/")], from a peer (host and port).  trans is the set of  *)
(* admitted transfers [peer, session, ttype, fname].                       *)
(***************************************************************************)
EXTENDS SarFiles, SarFrames

VARIABLE trans
rvars == << tree, trans >>

Fetch == {"get", "getdir", "take"}
Store == {"put", "give"}
Type(q) == Name(q.hdr, "reqtype")

Same(tr, peer, q) == { x \in tr : x.peer = peer /\ x.session = q.session }
Entry(peer, q) == [peer |-> peer, session |-> q.session, ttype |-> Type(q), fname |-> q.fname]
Taken(tr, peer, q) == \E x \in Same(tr, peer, q) : x # Entry(peer, q)
Admits(q) == Type(q) \in Fetch \cup Store

\* Everything that is wrong with a request, as the error codes it calls for.
\* With more than one thing wrong any of them may be what is answered.
If(c, s) == IF c THEN {s} ELSE {}
Faults(t, tr, peer, q) ==
  LET y == Type(q)
      h == q.hdr
      p == Named(q.comps)
      there == Exists(t, p) IN
  If(Name(h, "version") # "v1", "badrequest") \cup
  If(Name(h, "udplite") # "no", "badrequest") \cup
  If(Name(h, "stream") # "no", "badrequest") \cup
  If(Name(h, "rxwilling") = "invalid", "cantreceive") \cup
  If(Name(h, "txwilling") = "invalid", "cantsend") \cup
  If(q.fname = << >>, "badrequest") \cup
  If(y \notin Fetch \cup Store \cup {"delete"}, "badrequest") \cup
  If(y \in Fetch /\ Name(h, "rxwilling") # "yes", "cantreceive") \cup
  If(y \in Store /\ Name(h, "txwilling") # "yes", "cantsend") \cup
  If(y \in Fetch \cup {"delete"} /\ ~there, "filenotfound") \cup
  If(y = "delete" /\ there /\ ~CanRemove(t, p), "didnotdelete") \cup
  If(y \in Store /\ there, "fileinuse") \cup
  If(Admits(q) /\ Taken(tr, peer, q), "badrequest")
\* a name that climbs out of the shared directory may be refused for that
Climber(q) == Climbs(q.comps, 0)
Missing == {"filenotfound", "fileinuse", "didnotdelete"}
OutRefusals == {"badrequest", "accessdenied", "filenotfound"}

Codes(t, tr, peer, q) ==
  LET f == Faults(t, tr, peer, q)
      g == f \ Missing IN
  (IF Strange(t, Named(q.comps)) THEN f \cup Missing \cup If(g = {}, "success")
   ELSE IF f = {} THEN {"success"} ELSE f) \cup (IF Climber(q) THEN OutRefusals ELSE {})

\* A request answered with code
Answer(peer, q, code) ==
  /\ code \in Codes(tree, trans, peer, q)
  /\ IF code # "success" THEN UNCHANGED rvars
     ELSE IF Type(q) = "delete"
     THEN tree' = Removed(tree, Named(q.comps)) /\ UNCHANGED trans
     ELSE trans' = trans \cup {Entry(peer, q)} /\ UNCHANGED tree

OnePerKey == \A x, y \in trans : x.peer = y.peer /\ x.session = y.session => x = y
=============================================================================
