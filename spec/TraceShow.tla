----------------------------- MODULE TraceShow -----------------------------
(* Is what recorded command lines showed what SarShow says?                  *)
(* "have": the transfers and peers there are now; "cmd": a line, what it     *)
(* showed and the settings after it; "during": peers listed while their      *)
(* beacons came in, every row is as some beacon said.                        *)
EXTENDS SarShow, Json, IOUtils, TLC
VARIABLES l
vars == << settings, xfers, peers, help, l >>
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Go == l' = l + 1

TReset == /\ ev.e = "reset" /\ settings' = ev.settings /\ xfers' = << >> /\ peers' = << >>
          /\ help' = [c \in { ev.help[i].name : i \in 1 .. Len(ev.help) } |->
                        LET i == CHOOSE i \in 1 .. Len(ev.help) : ev.help[i].name = c IN [help |-> ev.help[i].help, usage |-> ev.help[i].usage]]
          /\ Go
THave == ev.e = "have" /\ xfers' = ev.xfers /\ peers' = ev.peers /\ UNCHANGED << settings, help >> /\ Go
TCmd == /\ ev.e = "cmd" /\ ev.res = "ok"
        /\ Shows(ev.line, ev.after, ev.msg, ev.err)
        /\ IF Kind(ev.line) \in {"query", "timeout", "refused", "helps"} THEN ev.after = settings ELSE TRUE
        /\ settings' = ev.after /\ UNCHANGED << xfers, peers, help >> /\ Go
\* versions: for each peer what it may be at the time
TDuring == /\ ev.e = "during" /\ ev.res = "ok"
           /\ LET rows == Rows(ev.msg) IN
              /\ Len(rows) = Len(ev.versions) + 1
              /\ \A i \in 2 .. Len(rows) : \E p \in 1 .. Len(ev.versions) : \E v \in 1 .. Len(ev.versions[p]) :
                    LET q == PeerRow(ev.versions[p][v]) IN
                    RowPeer(rows[i]).gb = q.gb /\ SubSeq(RowPeer(rows[i]).rest, 1, 5) = SubSeq(q.rest, 1, 5)
              /\ Cardinality({ rows[i].cells[1] : i \in 2 .. Len(rows) }) = Len(ev.versions)
           /\ UNCHANGED << settings, xfers, peers, help >> /\ Go

TraceInit == l = 1 /\ settings = [none |-> 0] /\ xfers = << >> /\ peers = << >> /\ help = << >>
TraceNext == l <= Len(Trace) /\ (TReset \/ THave \/ TCmd \/ TDuring)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) > Len(Trace) THEN TRUE ELSE Print(<<"REJECT", TLCGet(1)>>, FALSE)
=============================================================================
