--------------------------- MODULE TraceTransfers ---------------------------
(* Is a recorded run of starting, finding and removing transfers, by calls,  *)
(* by command lines and concurrently, a behaviour of SarTransfers?  After    *)
(* each the driver looks at the list of transfers and at the whole tree.     *)
(* PROP says which property is judged; the state follows what was seen.      *)
EXTENDS SarTransfers, Json, IOUtils, TLC
VARIABLES done, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Prop  == IOEnv.PROP
ToSet(s) == { s[i] : i \in 1 .. Len(s) }

S(o) == [ttype |-> o.ttype, peer |-> o.peer, fname |-> o.fname, comps |-> o.comps, reach |-> o.reach]
xs2 == ToSet(ev.list)
t2  == Bare(ToSet(ev.tree))
Once == Len(ev.list) = Cardinality(xs2)
NewXs == xs2 \ xfers
TheNew == CHOOSE x \in NewXs : TRUE
\* was something started?  A call says so, a command shows it in the list
Started(s) == IF ev.e = "start" THEN ev.ok ELSE NewXs # {}

J17start ==
  LET s == S(ev) IN
  /\ Once
  /\ IF Started(s)
     THEN /\ Cardinality(NewXs) = 1 /\ xfers \subseteq xs2
          /\ ~Dup(xfers, s)
          /\ TheNew = Transfer(s, TheNew.session) /\ TheNew.session \notin used
          /\ ev.e = "start" => ev.handle = TheNew
     ELSE xs2 = xfers
J18start ==
  LET s == S(ev) IN
  /\ IF Started(s)
     THEN /\ s.ttype \in Known => FilesOk(tree, s)
          /\ Like(Fetched(tree, s), t2)
     ELSE \/ t2 = tree
          \/ /\ ~s.reach /\ s.ttype \in Fetches /\ FilesOk(tree, s)
             /\ Like(Fetched(tree, s), t2)
  /\ ~MayRefuse(tree, xfers, s) => Started(s)

Advance == l' = l + 1 /\ done' = {}
Follow == tree' = t2 /\ xfers' = xs2
Same == Once /\ xs2 = xfers

TReset == /\ ev.e = "reset" /\ tree' = Bare(ToSet(ev.tree)) /\ xfers' = ToSet(ev.list) /\ used' = {} /\ Advance
TStart == /\ ev.e \in {"start", "cmd"} /\ ev.res = "ok"
          /\ IF Prop = "C17" THEN J17start ELSE J18start
          /\ Follow /\ used' = used \cup { x.session : x \in NewXs } /\ Advance
\* anything that starts nothing: no list changes but the one said, no file at all
Quiet == IF Prop = "C18" THEN t2 = tree ELSE TRUE
TRemove == /\ ev.e = "remove" /\ ev.res = "ok"
           /\ Prop = "C17" => /\ Once /\ ev.ok = (With(xfers, ev.key) # {})
                              /\ xs2 = xfers \ With(xfers, ev.key)
           /\ Quiet /\ Follow /\ UNCHANGED used /\ Advance
TRm == /\ ev.e = "rmtran" /\ ev.res = "ok"
       /\ Prop = "C17" =>
            LET w == { x \in xfers : x.peer = ev.peer /\ x.session = ev.session } IN
            /\ Once
            /\ IF w = {} \/ ~ev.valid THEN xs2 = xfers
               ELSE \/ \E x \in w : xs2 = xfers \ {x}
                    \/ ~(\E x \in w : x.ttype = ev.ttype) /\ xs2 = xfers
       /\ Quiet /\ Follow /\ UNCHANGED used /\ Advance
TLookup == /\ ev.e = "lookup" /\ ev.res = "ok"
           /\ Prop = "C17" => /\ Same
                              /\ IF ev.found THEN ev.got \in With(xfers, ev.key) ELSE With(xfers, ev.key) = {}
           /\ Quiet /\ Follow /\ UNCHANGED used /\ Advance
TMatch == /\ ev.e = "match" /\ ev.res = "ok"
          /\ Prop = "C17" => /\ Same
                             /\ IF ev.found THEN ev.got \in Matching(xfers, ev.peer, ev.session)
                                ELSE Matching(xfers, ev.peer, ev.session) = {}
          /\ Quiet /\ Follow /\ UNCHANGED used /\ Advance
\* started and removed again, over and over
TMany == /\ ev.e = "many" /\ ev.res = "ok"
         /\ Prop = "C17" => Same /\ Cardinality(ToSet(ev.sessions)) = Len(ev.sessions)
         /\ Quiet /\ Follow /\ UNCHANGED used /\ Advance
\* fileio.FileOpen by itself; reading from what was opened to be sent gives the file
TOpen == /\ ev.e = "open" /\ ev.res = "ok"
         /\ Prop = "C18" =>
              LET s == S(ev)
                  p == Named(s.comps) IN
              /\ ~(s.ttype \in Known /\ FilesOk(tree, s)) \/ Climbs(s.comps, 0) \/ OddSend(tree, s) \/ ev.ok
              /\ IF ev.ok /\ s.ttype \in Known
                 THEN FilesOk(tree, s) /\ Like(Fetched(tree, s), t2)
                 ELSE t2 = tree
              /\ ev.ok /\ s.ttype \in Sends /\ Exists(tree, p) /\ Kind(tree, p) = "file" =>
                    ev.data = (CHOOSE e \in tree : e.p = p).d
         /\ Follow /\ UNCHANGED used /\ Advance

\* concurrently: some order of the calls explains what each of them said
Op(o) == CASE o.op = "start"  -> IF o.ok THEN Start(S(o), o.session) ELSE Refuse(S(o))
           [] o.op = "remove" -> IF o.ok THEN Remove(o.key) ELSE With(xfers, o.key) = {} /\ UNCHANGED tvars
           [] o.op = "lookup" -> /\ IF o.found THEN o.got \in With(xfers, o.key) ELSE With(xfers, o.key) = {}
                                 /\ UNCHANGED tvars
           [] o.op = "match"  -> /\ IF o.found THEN o.got \in Matching(xfers, o.key.peer, o.key.session)
                                    ELSE Matching(xfers, o.key.peer, o.key.session) = {}
                                 /\ UNCHANGED tvars
TPar == /\ ev.e = "par" /\ ev.res = "ok"
        /\ \E i \in (1 .. Len(ev.ops)) \ done :
             /\ \A j \in 1 .. (i - 1) : ev.ops[j].g = ev.ops[i].g => j \in done
             /\ Op(ev.ops[i])
             /\ done' = done \cup {i}
        /\ l' = l
TJoin == /\ ev.e = "par" /\ ev.res = "ok" /\ done = 1 .. Len(ev.ops)
         /\ Like(tree, t2) /\ xs2 = xfers /\ Once
         /\ Follow /\ UNCHANGED used /\ Advance

TraceInit == l = 1 /\ done = {} /\ tree = {} /\ xfers = {} /\ used = {}
TraceNext == l <= Len(Trace) /\ (TReset \/ TStart \/ TRemove \/ TRm \/ TLookup \/ TMatch \/ TOpen \/ TMany \/ TPar \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, tvars>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
