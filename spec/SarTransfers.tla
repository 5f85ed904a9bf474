---------------------------- MODULE SarTransfers ----------------------------
(***************************************************************************)
(* Transfers started by the operator of a node: the list of the current    *)
(* ones, their session numbers, and the local files they start from.       *)
(*                                                                         *)
(* A transfer is [dir, session, peer, ttype, fname]; dir is "init" for one *)
(* started here and "resp" for one a peer asked for.  used is the set of   *)
(* all the session numbers ever given to a transfer started here.          *)
(***************************************************************************)
EXTENDS SarFiles

VARIABLES xfers, used
tvars == << tree, xfers, used >>

Fetches == {"get", "take", "getdir"}
Sends   == {"put", "give", "putblind"}
Known   == Fetches \cup Sends \cup {"delete"}

\* What is to be started: [ttype, peer, fname, comps (fname cut at "/"), reach
\* (can the peer be sent to at all)]
Dup(xs, s)  == \E x \in xs : x.peer = s.peer /\ x.fname = s.fname
NewKind(s)  == IF s.ttype = "getdir" THEN "dir" ELSE "file"
FilesOk(t, s) == CASE s.ttype \in Fetches -> CanMake(t, Named(s.comps))
                   [] s.ttype \in Sends   -> Exists(t, Named(s.comps))
                   [] OTHER               -> s.ttype = "delete"
CanStart(t, xs, s) == ~Dup(xs, s) /\ s.reach /\ s.ttype \in Known /\ FilesOk(t, s)
\* a name that climbs out of the shared directory may be refused for that
\* and so may sending something that is neither a file nor a directory
OddSend(t, s) == s.ttype \in Sends /\ Strange(t, Named(s.comps))
MayRefuse(t, xs, s) == ~CanStart(t, xs, s) \/ Climbs(s.comps, 0) \/ OddSend(t, s)

Transfer(s, sess) == [dir |-> "init", session |-> sess, peer |-> s.peer, ttype |-> s.ttype, fname |-> s.fname]
Fetched(t, s) == IF s.ttype \in Fetches
                 THEN t \cup {[p |-> Named(s.comps), k |-> NewKind(s), d |-> << >>, m |-> "new"]}
                 ELSE t

Start(s, sess) == /\ CanStart(tree, xfers, s) /\ sess \notin used
                  /\ xfers' = xfers \cup {Transfer(s, sess)}
                  /\ used' = used \cup {sess}
                  /\ tree' = Fetched(tree, s)
Refuse(s) == MayRefuse(tree, xfers, s) /\ UNCHANGED tvars

Key(x) == [dir |-> x.dir, session |-> x.session, peer |-> x.peer]
With(xs, k) == { x \in xs : Key(x) = k }
Matching(xs, peer, sess) == { x \in xs : x.peer = peer /\ x.session = sess }
Remove(k) == /\ With(xfers, k) # {}
             /\ xfers' = xfers \ With(xfers, k) /\ UNCHANGED << tree, used >>
\* rmtran: one of those with that peer and session
RemoveMatch(peer, sess) == \E x \in Matching(xfers, peer, sess) :
                             xfers' = xfers \ {x} /\ UNCHANGED << tree, used >>

\* the same tree, but for the attributes of what is new
Like(t, u) == /\ Cardinality(t) = Cardinality(u)
              /\ \A e \in t : IF e.m = "new" THEN \E f \in u : f.p = e.p /\ f.k = e.k /\ f.d = e.d
                              ELSE e \in u

OnePerFile == \A x, y \in xfers : x.dir = "init" /\ y.dir = "init" /\ x.peer = y.peer /\ x.fname = y.fname => x = y
OnePerKey  == \A x, y \in xfers : Key(x) = Key(y) => x = y
Fresh      == \A x \in xfers : x.dir = "init" => x.session \in used
=============================================================================
