------------------------------- MODULE MCHoles -------------------------------
(* Exhaustive check of SarHoles on a small number line, and (with GenSpec)   *)
(* the generator of the behaviours that are replayed in the implementation.  *)
EXTENDS SarHoles, TLC, Json
CONSTANTS N,       \* positions 0 .. N
          Depth    \* length of the generated behaviours
VARIABLE hist
vars == << recv, hist >>

MCInit == HolesInit /\ hist = << >>
MCNext == \E s \in 0 .. N, e \in 0 .. N : Add(s, e) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_vars

GenNext == /\ Len(hist) < Depth
           /\ \E s \in 0 .. N, e \in 0 .. N :
                /\ e >= s \/ e + 1 = s
                /\ Add(s, e)
                /\ hist' = Append(hist, << s, e >>)
GenSpec == MCInit /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
