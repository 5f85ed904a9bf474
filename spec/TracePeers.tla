----------------------------- MODULE TracePeers -----------------------------
(* Is a recorded run of the peer table a behaviour of SarPeers?  Beacons of  *)
(* a "par" event were heard concurrently: some order of them must explain    *)
(* what was answered and the table after them.  A "grams" event is a number  *)
(* of datagrams that were sent to a running node, and its table after them:  *)
(* those of a family are read in their order, and only those that SarNode    *)
(* takes as beacons matter.                                                  *)
EXTENDS SarPeers, SarNode, Json, IOUtils
VARIABLES done, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]

\* b, the 16 bytes of a timestamp, is a time between lo and hi (8 bytes of
\* seconds and 4 of nanoseconds each)
Precise(t) == t \in {"posix32_32", "posix64_32"}
Between(b, lo, hi) ==
  /\ TimeDenoted(b)
  /\ LET v == TimeVal(b)
         n == IF Precise(v.type) THEN 12 ELSE 8
         x == Take(TellsSecs(v) \o v.nsecs, n) IN
     LessEq(Take(lo, n), x) /\ LessEq(x, Take(hi, n))
TimeOK(want, got) == IF want = << >> THEN Between(got, ev.lo, ev.hi) ELSE got = want
\* the table seen is ps, in which the time of this step is << >>
Seen(ps) ==
  /\ Len(ev.table) = Len(ps)
  /\ \A i \in 1 .. Len(ps) :
       /\ ev.table[i].addr = ps[i].addr
       /\ Says(ev.table[i]) = Says(ps[i])
       /\ TimeOK(ps[i].created, ev.table[i].created)
       /\ TimeOK(ps[i].updated, ev.table[i].updated)

Advance == l' = l + 1 /\ done' = {}
TReset == ev.e = "reset" /\ peers' = << >> /\ Advance
THear == /\ ev.e = "hear" /\ ev.res = "ok"
         /\ ev.news = News(peers, ev.addr, ev.b)
         /\ IF ev.seen THEN Seen(Heard(peers, ev.addr, ev.b, << >>)) /\ peers' = ev.table
            ELSE Hear(ev.addr, ev.b, << >>)      \* the table is looked at later
         /\ Advance
TPar == /\ ev.e = "par" /\ ev.res = "ok"
        /\ \E i \in (1 .. Len(ev.ops)) \ done :
             /\ \A j \in 1 .. (i - 1) : ev.ops[j].g = ev.ops[i].g => j \in done
             /\ News(peers, ev.ops[i].addr, ev.ops[i].b) = ev.ops[i].news
             /\ Hear(ev.ops[i].addr, ev.ops[i].b, << >>)
             /\ done' = done \cup {i}
        /\ l' = l
Beacon(o) == Name(Take(o.b, 4), "frametype") = "beacon" /\ Verdicts(o.b, ev.max) = {"take"}
TGrams == /\ ev.e = "grams" /\ ev.res = "ok"
          /\ \E i \in (1 .. Len(ev.ops)) \ done :
               /\ \A j \in 1 .. (i - 1) : ev.ops[j].g = ev.ops[i].g => j \in done
               /\ IF Len(ev.ops[i].b) < 8 THEN UNCHANGED peers
                  ELSE IF Beacon(ev.ops[i]) THEN Hear(ev.ops[i].addr, BeaconVal(ev.ops[i].b), << >>)
                  ELSE UNCHANGED peers
               /\ done' = done \cup {i}
          /\ l' = l
TJoin == /\ ev.e \in {"par", "grams"} /\ ev.res = "ok" /\ done = 1 .. Len(ev.ops)
         /\ Seen(peers) /\ peers' = ev.table /\ Advance

TraceInit == l = 1 /\ done = {} /\ PInit
TraceNext == l <= Len(Trace) /\ (TReset \/ THear \/ TPar \/ TGrams \/ TJoin)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done, peers>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
