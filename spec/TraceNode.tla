------------------------------ MODULE TraceNode ------------------------------
(* Is what a running node did with recorded datagrams what SarNode allows?   *)
(* "rx": a datagram and what came back to the socket it was sent from.       *)
(* "probe": whether a well-formed request was answered after all that.       *)
(* PROP says which property is judged.                                       *)
EXTENDS SarNode, Json, IOUtils
VARIABLES max, l
ASSUME TLCSet(1, 1)
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
Prop  == IOEnv.PROP

RightAnswers(b, as) ==
  \E v \in Verdicts(b, max) :
    IF Answers(v) = 0 THEN as = << >> ELSE Len(as) = 1 /\ IsAnswer(v, b, as[1])

Advance == l' = l + 1
TReset == ev.e = "reset" /\ max' = ev.max /\ Advance
TRx    == ev.e = "rx" /\ (Prop = "C12" => RightAnswers(ev.b, ev.answers)) /\ UNCHANGED max /\ Advance
TFlood == ev.e = "flood" /\ UNCHANGED max /\ Advance
TProbe == ev.e = "probe" /\ (Prop = "C11" => ev.res = "ok") /\ UNCHANGED max /\ Advance

TraceInit == l = 1 /\ max = 0
TraceNext == l <= Len(Trace) /\ (TReset \/ TRx \/ TFlood \/ TProbe)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, max>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
