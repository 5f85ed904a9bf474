------------------------------ MODULE SarPeers ------------------------------
(***************************************************************************)
(* The table of peers learned from beacons.                                *)
(*                                                                         *)
(* A beacon is [hdr (4 bytes), fs (8 bytes), eid]; an entry of the table   *)
(* is [addr, fs, eid, desc, rx, tx, created, updated].  Beacons may be     *)
(* heard concurrently; hearing one is atomic.                              *)
(***************************************************************************)
EXTENDS SarTime

VARIABLE peers
Now == "now"                    \* the time of the step that is being taken

Told(b) == [fs |-> b.fs, eid |-> b.eid, desc |-> Name(b.hdr, "descriptor"),
            rx |-> Name(b.hdr, "rxwilling"), tx |-> Name(b.hdr, "txwilling")]
Says(p)  == [fs |-> p.fs, eid |-> p.eid, desc |-> p.desc, rx |-> p.rx, tx |-> p.tx]
Entry(a, b, c, u) == [addr |-> a, fs |-> b.fs, eid |-> b.eid, desc |-> Told(b).desc,
                      rx |-> Told(b).rx, tx |-> Told(b).tx, created |-> c, updated |-> u]
At(ps, a) == { i \in 1 .. Len(ps) : ps[i].addr = a }

\* Is a beacon b from address a news to a table?  And the table after it.
News(ps, a, b) == \A i \in At(ps, a) : Says(ps[i]) # Told(b)
Heard(ps, a, b, now) ==
  IF At(ps, a) = {} THEN Append(ps, Entry(a, b, now, now))
  ELSE IF News(ps, a, b)
       THEN [i \in 1 .. Len(ps) |-> IF ps[i].addr = a THEN Entry(a, b, ps[i].created, now) ELSE ps[i]]
       ELSE ps

PInit == peers = << >>
Hear(a, b, now) == peers' = Heard(peers, a, b, now)

OneEach == \A i, j \in 1 .. Len(peers) : peers[i].addr = peers[j].addr => i = j
CreatedFirst(le(_, _)) == \A i \in 1 .. Len(peers) : le(peers[i].created, peers[i].updated)
=============================================================================
