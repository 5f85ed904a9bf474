------------------------------- MODULE MCShow -------------------------------
(* Histories of changes and what is then asked for.  The displays of the      *)
(* specification tell states apart and are recognised by its own predicates.  *)
EXTENDS SarShow, Json, TLC
CONSTANTS Changes, Keep
VARIABLES n, hist
vars == << settings, xfers, peers, help, n, hist >>

Init0 == [global |-> [csumtype |-> "none", descriptor |-> "d64", freespace |-> "yes", reqtstamp |-> "yes", stream |-> "no",
                      rxwilling |-> "yes", txwilling |-> "yes", udplite |-> "no"],
          timestamp |-> "posix64", timezone |-> "utc", bcount |-> N8(3), binterval |-> N8(3), metadata |-> N8(55), request |-> N8(56),
          status |-> N8(57), datacounter |-> N8(100), transfer |-> N8(58), rest |-> ""]
Zero0 == [Init0 EXCEPT !.metadata = N8(0), !.request = N8(0), !.status = N8(0), !.transfer = N8(0), !.binterval = N8(0), !.bcount = N8(0)]
Help0 == [c \in {"tran", "checksum"} |-> [help |-> "h " \o c, usage |-> "u " \o c]]
W(x) == [w |-> x, num |-> FALSE, odd |-> FALSE, n |-> N8(0)]
Num(x, v) == [w |-> x, num |-> TRUE, odd |-> FALSE, n |-> N8(v)]
Sets == { << W(c), W(a) >> : c \in DOMAIN Choices, a \in UNION { DOMAIN Choices[d] : d \in DOMAIN Choices } } \cup
        { << W("timestamp"), W(x[1]) >> : x \in Stamps } \cup { << W("timestamp"), W("off") >> } \cup { << W("timezone"), W(z) >> : z \in {"local", "utc"} } \cup
        { << W(c), Num("0", 0) >> : c \in {"bcount", "interval"} } \cup { << W(c), Num("7", 7) >> : c \in {"bcount", "interval"} } \cup
        { << W("timeout"), W(t), v >> : t \in Timeouts, v \in {Num("0", 0), Num("9", 9), W("off")} }
Good == { ws \in Sets : Accepts(ws) }
Files == {"a", "new"}
Addrs == {"127.0.0.1:7542", "[::1]:7542"}
P(a, v) == IF v = 1 THEN [addr |-> a, free |-> N8(0), eid |-> "", desc |-> "d64", rx |-> "no", tx |-> "yes", created |-> "1", updated |-> "1"]
           ELSE [addr |-> a, free |-> << 0, 0, 0, 0, 1, 0, 0, 0 >>, eid |-> "x-1", desc |-> "d16", rx |-> "capable", tx |-> "no", created |-> "1", updated |-> "2"]

\* ways to ask
Asks == { << c >> : c \in Setters \cup DOMAIN Lister \cup {"peers", "help", "usage", "?"} } \cup
        { << "timeout", t >> : t \in Timeouts } \cup { << "tran", t >> : t \in Types } \cup
        { << c, "?" >> : c \in Setters \cup DOMAIN Lister \cup {"peers", "help", "beacon", "ls", "quit"} } \cup
        { << "tran", "nosuch" >>, << "peers", "x" >>, << "give", "x" >>, << "timeout", "binterval", "off" >>, << "get", "nobody", "x" >> }
Step(k, ws, i) == [k |-> k, line |-> ws, i |-> i]
Note(s) == hist' = IF Keep THEN Append(hist, s) ELSE hist
Text(ws) == [i \in 1 .. Len(ws) |-> ws[i].w]

Set(ws) == Command(ws) /\ UNCHANGED << xfers, peers >> /\ Note(Step("line", Text(ws), 0))
Start(t, a, f) == /\ ~ \E i \in 1 .. Len(xfers) : xfers[i].peer = a /\ xfers[i].file = f
                  /\ xfers' = Append(xfers, [dir |-> IF Len(xfers) % 2 = 0 THEN "Initiator" ELSE "Responder", type |-> t, peer |-> a, file |-> f])
                  /\ UNCHANGED << settings, peers >> /\ Note(Step("xfer", << t, a, f >>, 0))
End(i) == xfers' = SubSeq(xfers, 1, i - 1) \o SubSeq(xfers, i + 1, Len(xfers)) /\ UNCHANGED << settings, peers >> /\ Note(Step("drop", << >>, i))
Hear(a, v) == /\ peers' = IF \E i \in 1 .. Len(peers) : peers[i].addr = a THEN [i \in 1 .. Len(peers) |-> IF peers[i].addr = a THEN P(a, v) ELSE peers[i]]
                          ELSE Append(peers, P(a, v))
              /\ UNCHANGED << settings, xfers >> /\ Note(Step("peer", << a >>, v))
Change == \/ \E ws \in Good : Set(ws)
          \/ \E t \in Types, a \in Addrs, f \in Files : Start(t, a, f)
          \/ \E i \in 1 .. Len(xfers) : End(i)
          \/ \E a \in Addrs, v \in 1 .. 2 : Hear(a, v)
Ask == \E q \in Asks : UNCHANGED << settings, xfers, peers >> /\ Note(Step("line", q, 0))

Init == settings \in {Init0, Zero0} /\ xfers = << >> /\ peers = << >> /\ help = Help0 /\ n = 0 /\ hist = << >>
Next == /\ n' = n + 1 /\ UNCHANGED help
        /\ IF n < Changes THEN Change ELSE n = Changes /\ Keep /\ Ask
GenInit == Init /\ settings = Init0
Spec == Init /\ [][Next]_vars
GenSpec == GenInit /\ [][Next]_vars
Emit == Len(hist) = Changes + 1 => PrintT("SCEN " \o ToJson(hist))

(* A way to show things, to try the predicates on *)
Line(ws, cells, gb) == [norm |-> "", words |-> ws, cells |-> cells, gb |-> gb, about |-> << >>]
Show1(c, s) == << Line(IF c \in YesNo THEN << W(IF G(s, c) = "yes" THEN "can" ELSE "cannot") >>
                       ELSE CASE c \in DOMAIN Choices -> << W(G(s, Flag(c))) >>
                              [] c = "timestamp" -> << W(s.timestamp), W(G(s, "reqtstamp")) >>
                              [] c = "timezone" -> << W(s.timezone) >>
                              [] c = "bcount" -> << [w |-> "n", num |-> TRUE, odd |-> FALSE, n |-> s.bcount] >>
                              [] c = "interval" -> << [w |-> "n", num |-> TRUE, odd |-> FALSE, n |-> s.binterval] >>
                              [] OTHER -> << W(c), [w |-> "n", num |-> TRUE, odd |-> FALSE, n |-> TimeoutOf(s, c)] >>, << >>, N8(0)) >>
Single == (Setters \ {"timeout"}) \cup Timeouts
PartOf(c, s) == CASE c \in DOMAIN Choices -> << G(s, Flag(c)) >> [] c = "timestamp" -> << s.timestamp, G(s, "reqtstamp") >>
                  [] c = "timezone" -> << s.timezone >> [] c = "bcount" -> << s.bcount >> [] c = "interval" -> << s.binterval >>
                  [] OTHER -> << TimeoutOf(s, c) >>
ShowX(xs) == << Line(<< >>, << "h" >>, N8(0)) >> \o [i \in 1 .. Len(xs) |-> Line(<< >>, XferRow(xs[Len(xs) + 1 - i]), N8(0))]

\* what is shown tells the old from the new setting
TellsApart == [][\A c \in Single : PartOf(c, settings) # PartOf(c, settings') => ~ Tells(c, settings', Show1(c, settings))]_vars
Recognised == /\ \A c \in Single : Tells(c, settings, Show1(c, settings))
              /\ TellsTimeouts({"status"}, settings, Show1("status", settings)) /\ ~ TellsTimeouts({"status"}, settings, Show1("request", settings))
TablesOk == /\ (xfers # << >> => ListsTransfers("", ShowX(xfers)))
            /\ (xfers # << >> => ~ ListsTransfers("", ShowX(Tail(xfers))))
            /\ \A t \in Types : OfType(t) # << >> /\ OfType(t) # xfers => ListsTransfers(t, ShowX(OfType(t))) /\ ~ ListsTransfers(t, ShowX(xfers))
=============================================================================
