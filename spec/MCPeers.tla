------------------------------- MODULE MCPeers -------------------------------
(* Exhaustive check of SarPeers, and the generator of histories of beacons.  *)
EXTENDS SarPeers, TLC, Json
CONSTANTS Addrs, MaxClock, Depth
VARIABLES clock, heard, latest, hist
vars == << peers, clock, heard, latest, hist >>

H0 == Set(Set(Set(Set(Zeros(4), "version", "v1"), "descriptor", "d32"), "rxwilling", "yes"), "txwilling", "yes")
B0 == [hdr |-> H0, fs |-> << 0, 0, 0, 0, 0, 0, 1, 0 >>, eid |-> << 97 >>]
\* one thing different each; the last differs in nothing the table keeps
Beacons == [ base |-> B0,
  fs   |-> [B0 EXCEPT !.fs = << 1, 0, 0, 0, 0, 0, 1, 0 >>],
  eid  |-> [B0 EXCEPT !.eid = << 97, 0, 255 >>],
  desc |-> [B0 EXCEPT !.hdr = Set(H0, "descriptor", "d64")],
  rx   |-> [B0 EXCEPT !.hdr = Set(H0, "rxwilling", "capable")],
  tx   |-> [B0 EXCEPT !.hdr = Set(H0, "txwilling", "no")],
  same |-> [B0 EXCEPT !.hdr = Set(H0, "udplite", "yes")] ]

MCInit == PInit /\ clock = 0 /\ heard = << >> /\ latest = << >> /\ hist = << >>
Known2(a) == \E i \in 1 .. Len(heard) : heard[i] = a
Step(a, k) == /\ Hear(a, Beacons[k], clock) /\ clock' = clock + 1
              /\ heard' = (IF Known2(a) THEN heard ELSE Append(heard, a))
              /\ latest' = [x \in DOMAIN latest \cup {a} |-> IF x = a THEN Beacons[k] ELSE latest[x]]
MCNext == clock < MaxClock /\ \E a \in Addrs, k \in DOMAIN Beacons : Step(a, k) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_vars

InOrder == [i \in 1 .. Len(peers) |-> peers[i].addr] = heard
Latest == \A i \in 1 .. Len(peers) : Says(peers[i]) = Told(latest[peers[i].addr])
Ages == CreatedFirst(LAMBDA x, y : x <= y)
Lasting == [][\A i \in 1 .. Len(peers) :
               /\ peers'[i].created = peers[i].created /\ peers'[i].addr = peers[i].addr
               /\ (peers'[i].updated # peers[i].updated <=> Says(peers'[i]) # Says(peers[i]))]_peers

GenNext == Len(hist) < Depth /\ \E a \in Addrs, k \in DOMAIN Beacons :
             Step(a, k) /\ hist' = Append(hist, [a |-> a, b |-> Beacons[k]])
GenSpec == MCInit /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
