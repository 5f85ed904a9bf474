------------------------------- MODULE MCTime -------------------------------
(* Exhaustive check of SarTime over boundary instants; generator of runs.    *)
EXTENDS SarTime, TLC, Json
CONSTANT Depth
VARIABLES inst, tv, wire, hist
vars == << inst, tv, wire, hist >>
None == [none |-> TRUE]
B(a, b, c, d, e, f, g, h) == << a, b, c, d, e, f, g, h >>
Secs == { Z8, B(0,0,0,0,0,0,0,1), B(0,0,0,0,56,109,67,127), Epoch2000, B(0,0,0,0,127,255,255,255), B(0,0,0,0,128,0,0,0),
          B(0,0,0,0,255,255,255,255), B(0,0,0,1,0,0,0,0), B(0,0,0,1,56,109,67,127), B(0,0,0,1,56,109,67,128),
          B(0,0,0,2,34,137,214,233), B(0,0,0,58,255,244,65,127), B(127,255,255,255,255,255,255,255),
          B(255,255,255,255,255,255,255,255), B(128,0,0,0,0,0,0,0) }
Nsecs == { Z4, << 0, 0, 0, 1 >>, << 59, 154, 201, 255 >>, << 0, 15, 66, 63 >> }

Init == inst = None /\ tv = None /\ wire = << >> /\ hist = << >>
Stamp(t, s, n) == /\ InstantFits(t, s)
                  /\ inst' = << t, s, n >> /\ tv' = TimeOf(t, s, n) /\ wire' = << >>
Send    == tv # None /\ wire' = TimeBytes(tv) /\ UNCHANGED << inst, tv >>
Cut     == Len(wire) > 0 /\ wire' = Take(wire, Len(wire) - 1) /\ UNCHANGED << inst, tv >>
Receive == TimeDenoted(wire) /\ tv' = TimeVal(wire) /\ UNCHANGED << inst, wire >>
MCNext == /\ (\E t \in TimeTypes, s \in Secs, n \in Nsecs : Stamp(t, s, n)) \/ Send \/ Cut \/ Receive
          /\ UNCHANGED hist
MCSpec == Init /\ [][MCNext]_vars

\* However it travelled, a timestamp tells the instant it was made of
TellsInstant == tv # None /\ tv.type # "localinterp" =>
                /\ TellsSecs(tv) = inst[2] /\ tv.type = inst[1]
                /\ tv.nsecs = IF tv.type \in {"posix32_32", "posix64_32"} THEN inst[3] ELSE Z4
Sixteen == tv # None => Len(TimeBytes(tv)) = 16 /\ TimeVal(TimeBytes(tv)) = tv
Between == tv # None => IsTimeBetween(TimeBytes(tv), tv.type, inst[2], inst[2])

\* Generator: objects that are used again and again
GenNext == /\ Len(hist) < Depth
           /\ \E t \in TimeTypes, s \in Secs, n \in Nsecs : hist' = Append(hist, << t, s, n >>)
           /\ UNCHANGED << inst, tv, wire >>
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
