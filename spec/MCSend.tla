-------------------------------- MODULE MCSend --------------------------------
(* All histories of sending good and bad frames on sockets of every kind,    *)
(* open and closed.                                                          *)
EXTENDS SarSend, Json
CONSTANTS Depth, Keep
VARIABLES hist, sent
vars == << socks, inbox, hist, sent >>

S1 == << 1, 2, 3, 4 >>
N1 == << 0, 0, 0, 0, 0, 0, 1, 2 >>
N2 == << 0, 0, 0, 0, 0, 1, 255, 1 >>
H(ft, d) == Set(Base(ft), "descriptor", d)
DH(d) == SetD(SetD(<< 0, 0 >>, "sod", "sod"), "descriptor", d)
\* kind, name and the frame: the ones called bad have no encoding
D(d, o)   == [hdr |-> H("data", d), session |-> S1, ts |-> << >>, off |-> o, pay |-> << 65, 0, 66 >>]
St(d, o)  == [hdr |-> H("status", d), session |-> S1, ts |-> << >>, prog |-> N1, inr |-> N1, holes |-> << << N1, o >> >>]
Rq(n)     == [hdr |-> H("request", "d32"), session |-> S1, fname |-> n, auth |-> << 7, 0 >>]
Md(d, s)  == [hdr |-> H("metadata", "d32"), session |-> S1, csum |-> << >>, dhdr |-> DH(d), size |-> s,
              mtime |-> S1, ctime |-> S1, path |-> << 112 >>]
Bc(d, s)  == [hdr |-> Set(Set(Base("beacon"), "freespace", "yes"), "freespaced", d), fs |-> s, eid |-> << 101 >>]
Frame == [ data |-> << D("d32", N2), D("d16", N2) >>, status |-> << St("d32", N2), St("d16", N2) >>,
           request |-> << Rq(<< 102, 103 >>), Rq(<< 102, 0 >>) >>, metadata |-> << Md("d32", N2), Md("d16", N2) >>,
           beacon |-> << Bc("d32", N2), Bc("d16", N2) >> ]
ASSUME \A ft \in DOMAIN Frame : Encodable(ft, Frame[ft][1]) /\ ~Encodable(ft, Frame[ft][2])

Socks == << [open |-> TRUE, fam |-> "v4", peer |-> 0], [open |-> TRUE, fam |-> "v6", peer |-> 0],
            [open |-> TRUE, fam |-> "any", peer |-> 0], [open |-> TRUE, fam |-> "v4", peer |-> 1],
            [open |-> TRUE, fam |-> "v6", peer |-> 3] >>
\* a connected socket is only used for its peer
Tos(s, ft) == IF ft = "beacon" THEN {0} ELSE IF socks[s].peer # 0 THEN {socks[s].peer} ELSE 1 .. Len(RFam)
Did(x) == hist' = IF Keep THEN Append(hist, x) ELSE Append(hist, 0)
Op(op, s, ft, n, to) == [op |-> op, s |-> s, ft |-> ft, n |-> n, to |-> to]
Step ==
  \/ \E s \in 1 .. 5, ft \in DOMAIN Frame, n \in {1, 2} : \E to \in Tos(s, ft), ok \in BOOLEAN :
       /\ Send(s, ft, Frame[ft][n], to, ok)
       /\ sent' = IF ok THEN sent \cup {<< s, Dest(s, ft, to), BytesOf(ft, Frame[ft][n]) >>} ELSE sent
       /\ Did(Op("send", s, ft, n, to))
  \/ \E s \in 1 .. 5 : socks[s].open /\ Close(s) /\ UNCHANGED sent /\ Did(Op("close", s, "", 0, 0))
Init == NInit(Socks) /\ hist = << >> /\ sent = {}
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars

\* what is in an inbox is a frame, sent to this receiver by a socket of its family
Genuine == \A r \in DOMAIN inbox : \A i \in 1 .. Len(inbox[r]) :
             LET x == inbox[r][i] IN
             /\ << x.from, r, x.b >> \in sent
             /\ \E ft \in DOMAIN Frame : x.b = BytesOf(ft, Frame[ft][1]) /\ Denotes(ft, x.b)
             /\ socks[x.from].fam \in {"any", RFam[r]}
             /\ socks[x.from].peer \in {0, r}
\* one datagram at most for a step, none from a socket that is closed
Sum == Len(inbox[1]) + Len(inbox[2]) + Len(inbox[3]) + Len(inbox[4])
OneEach == [][ \/ inbox' = inbox
               \/ \E r \in DOMAIN inbox : /\ Len(inbox'[r]) = Len(inbox[r]) + 1
                                          /\ \A q \in DOMAIN inbox \ {r} : inbox'[q] = inbox[q]
                                          /\ socks[inbox'[r][Len(inbox'[r])].from].open ]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson([ops |-> [i \in 1 .. Len(hist) |->
          [op |-> hist[i].op, s |-> hist[i].s, ft |-> hist[i].ft, to |-> hist[i].to,
           frame |-> IF hist[i].op = "send" THEN Frame[hist[i].ft][hist[i].n] ELSE None]]]))
=============================================================================
