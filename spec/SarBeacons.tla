----------------------------- MODULE SarBeacons -----------------------------
(***************************************************************************)
(* The beacon command: whom it sends beacons to, how many and what is in   *)
(* them.  The words of the command are those of SarCommands, with the      *)
(* address a word denotes ("" if it denotes none) in addr.                 *)
(***************************************************************************)
EXTENDS SarCommands, SarFrames

\* mc: the addresses that v4 and v6 stand for
Targets(ws, mc) ==
  IF Len(ws) < 2 \/ ws[2].w = "off" \/ (Len(ws) = 2 /\ ws[2].w = "?") THEN {}
  ELSE IF Len(ws) = 2 /\ ws[2].w = "v4" THEN {mc.v4}
  ELSE IF Len(ws) = 2 /\ ws[2].w = "v6" THEN {mc.v6}
  ELSE { ws[i].addr : i \in { j \in 2 .. Len(ws) : ws[j].addr # "" } }

\* the header of a beacon with the operator's settings, but for the width of the free space
RECURSIVE ItemsOf(_, _)
ItemsOf(g, S) == IF S = {} THEN << >>
                 ELSE LET f == CHOOSE f \in S : TRUE IN << << f, g[f] >> >> \o ItemsOf(g, S \ {f})
BeaconHeader(s) == FromFlags("beacon", ItemsOf(s.global, DOMAIN s.global \cap Settable.beacon)).hdr
Eid(src, pid) == src \o << 45 >> \o pid

\* a beacon of a node with these settings, a free space from lo to hi, sending from src
BeaconOf(s, fs, src, pid) ==
  LET h == BeaconHeader(s) IN
  [hdr |-> IF Advertises(h) THEN Set(h, "freespaced", FsDesc(fs)) ELSE h,
   fs |-> IF Advertises(h) THEN fs ELSE Zeros(8), eid |-> Eid(src, pid)]
IsBeaconOf(s, b, src, pid, lo, hi) ==
  /\ BeaconDenotes(b)
  /\ LET v == BeaconVal(b) IN
     /\ v = BeaconOf(s, v.fs, src, pid)
     /\ Advertises(v.hdr) => LessEq(lo, v.fs) /\ LessEq(v.fs, hi)
=============================================================================
