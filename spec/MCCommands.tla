----------------------------- MODULE MCCommands -----------------------------
EXTENDS SarCommands, Json, TLC
CONSTANTS Depth, Keep
VARIABLES n, hist
vars == << settings, n, hist >>

Init0 == [global |-> [csumtype |-> "none", descriptor |-> "d64", freespace |-> "yes", reqtstamp |-> "yes", stream |-> "no",
                      rxwilling |-> "yes", txwilling |-> "yes", udplite |-> "no"],
          timestamp |-> "posix64", timezone |-> "utc", bcount |-> N8(3), binterval |-> N8(3), metadata |-> N8(55), request |-> N8(56),
          status |-> N8(57), datacounter |-> N8(100), transfer |-> N8(58), rest |-> ""]
W(x) == [w |-> x, num |-> FALSE, odd |-> FALSE, n |-> N8(0)]
Num(x, v) == [w |-> x, num |-> TRUE, odd |-> FALSE, n |-> N8(v)]
OddN(x, v) == [w |-> x, num |-> FALSE, odd |-> TRUE, n |-> N8(v)]
Nums == { Num("0", 0), Num("1", 1), Num("77", 77), W("-1"), W("x"), OddN("+5", 5) }
Args == UNION { DOMAIN Choices[c] : c \in DOMAIN Choices } \cup { x[1] : x \in Stamps } \cup {"local", "utc", "?", "d128", "ON", "yes,no", "invalid"}
Cmds == DOMAIN Choices \cup {"timestamp", "timezone", "bcount", "interval", "timeout"}
Lines == { << W(c) >> : c \in Cmds \cup {"nosuch", "help"} } \cup
         { << W(c), W(a) >> : c \in Cmds, a \in Args } \cup
         { << W(c), w >> : c \in Cmds, w \in Nums } \cup
         { << W("timeout"), W(t), w >> : t \in Timeouts \cup {"dataframes"}, w \in Nums \cup {W("off"), W("?")} } \cup
         { << W("timeout"), W(t) >> : t \in Timeouts } \cup
         { << W(c), W(a), W(a) >> : c \in Cmds, a \in {"yes", "off", "on", "64"} }
\* the ones of longer histories
Few == { ws \in Lines : Len(ws) \in {2, 3} /\ Effects(Init0, ws) # {Init0} /\ (Len(ws) = 3 => ws[3].w \in {"0", "off"}) } \cup
       { << W("timeout") >>, << W("timestamp") >>, << W("rxwilling"), W("maybe") >> }

Init == settings = Init0 /\ n = 0 /\ hist = << >>
Next == /\ n < Depth /\ n' = n + 1
        /\ \E ws \in (IF Depth = 1 THEN Lines ELSE Few) :
             Command(ws) /\ hist' = IF Keep THEN Append(hist, [i \in 1 .. Len(ws) |-> ws[i].w]) ELSE hist
Spec == Init /\ [][Next]_vars

AlwaysValid == Valid(settings) /\ settings.rest = "" /\ settings.global.udplite = "no"
\* no line changes more than one setting, but for timestamp
Changed(s, t) == { f \in DOMAIN s.global : s.global[f] # t.global[f] } \cup
                 { x \in {"bcount", "binterval", "metadata", "request", "status", "datacounter", "transfer", "timestamp", "timezone"} :
                     CASE x = "bcount" -> s.bcount # t.bcount [] x = "binterval" -> s.binterval # t.binterval
                       [] x = "metadata" -> s.metadata # t.metadata [] x = "request" -> s.request # t.request
                       [] x = "status" -> s.status # t.status [] x = "datacounter" -> s.datacounter # t.datacounter
                       [] x = "transfer" -> s.transfer # t.transfer [] x = "timestamp" -> s.timestamp # t.timestamp
                       [] x = "timezone" -> s.timezone # t.timezone }
OnlyNamed == [][LET c == Changed(settings, settings') IN Cardinality(c) <= 1 \/ c = {"timestamp", "reqtstamp"}]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
