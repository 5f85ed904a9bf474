------------------------------ MODULE MCBeacons ------------------------------
(* Exhaustive check of SarBeacons, and the generator of command histories.   *)
EXTENDS SarBeacons, Json
CONSTANTS Depth, Keep
VARIABLES inbox, want, n, hist
vars == << settings, inbox, want, n, hist >>

W(x, a) == [w |-> x, num |-> FALSE, odd |-> FALSE, n |-> N8(0), addr |-> a]
Num(x, v) == [w |-> x, num |-> TRUE, odd |-> FALSE, n |-> N8(v), addr |-> ""]
C(x, v) == << W(x, ""), v >>
Lines == { C("bcount", Num("0", 0)), C("bcount", Num("2", 2)), C("freespace", W("no", "")), C("freespace", W("yes", "")),
           C("rxwilling", W("capable", "")), C("txwilling", W("off", "")), C("stream", W("yes", "")), C("descriptor", W("d16", "")) } \cup
         { << W("beacon", "") >> \o a : a \in
             { << >>, << W("?", "") >>, << W("off", "") >>, << W("v4", "") >>, << W("v6", "") >>,
               << W("A", "A") >>, << W("B", "B") >>, << W("bad", "") >>,
               << W("A", "A"), W("B", "B") >>, << W("bad", ""), W("B", "B") >>, << W("B", "B"), W("bad", ""), W("A", "A") >>,
               << W("off", ""), W("A", "A") >>, << W("C", "C"), W("A", "A"), W("B", "B") >> } }
Init0 == [global |-> [csumtype |-> "none", descriptor |-> "d64", freespace |-> "yes", reqtstamp |-> "yes", stream |-> "no",
                      rxwilling |-> "yes", txwilling |-> "yes", udplite |-> "no"],
          timestamp |-> "posix64", timezone |-> "utc", bcount |-> N8(1), binterval |-> N8(0), metadata |-> N8(55), request |-> N8(56),
          status |-> N8(57), datacounter |-> N8(100), transfer |-> N8(58), rest |-> ""]
MC == [v4 |-> "M4", v6 |-> "M6"]
All == {"A", "B", "C", "M4", "M6"}
Src == << 49, 50 >>
Pid == << 55 >>
Free == << 0, 0, 0, 0, 0, 1, 0, 0 >>

Init == settings = Init0 /\ inbox = [a \in All |-> << >>] /\ want = [a \in All |-> 0] /\ n = 0 /\ hist = << >>
Sent(s) == BeaconBytes(BeaconOf(s, Free, Src, Pid))
Next == /\ n < Depth /\ n' = n + 1
        /\ \E ws \in Lines :
             /\ Command(ws)
             /\ LET T == IF ws[1].w = "beacon" THEN Targets(ws, MC) ELSE {}
                    k == settings.bcount[8] IN
                /\ inbox' = [a \in All |-> inbox[a] \o (IF a \in T THEN [i \in 1 .. k |-> Sent(settings)] ELSE << >>)]
                /\ want' = [a \in All |-> want[a] + IF a \in T THEN k ELSE 0]
             /\ hist' = IF Keep THEN Append(hist, [i \in 1 .. Len(ws) |-> ws[i].w]) ELSE hist
Spec == Init /\ [][Next]_vars

Count == \A a \in All : Len(inbox[a]) = want[a]
\* all of them are beacons of this node
Genuine == \A a \in All : \A i \in 1 .. Len(inbox[a]) :
             BeaconDenotes(inbox[a][i]) /\ BeaconEncodable(BeaconVal(inbox[a][i])) /\ Get(inbox[a][i], "frametype") = 0
\* a beacon tells its receiver the settings it was sent with
Told(b) == << Name(b, "descriptor"), Name(b, "stream"), Name(b, "rxwilling"), Name(b, "txwilling"), Name(b, "freespace"), Name(b, "udplite") >>
Tells == LET g == settings.global
             b == Sent(settings) IN
         /\ Told(b) = << g.descriptor, g.stream, g.rxwilling, g.txwilling, g.freespace, g.udplite >>
         /\ IsBeaconOf(settings, b, Src, Pid, Free, Free)
         /\ ~IsBeaconOf(settings, b \o << 0 >>, Src, Pid, Free, Free)
         /\ (g.freespace = "yes" => ~IsBeaconOf(settings, b, Src, Pid, N8(0), N8(65535)))
NothingElse == [][inbox # inbox' => settings = settings']_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
