------------------------------ MODULE MCConfig ------------------------------
(* Copies are equal when taken and independent afterwards, for every         *)
(* sequence of copying and changing; and the generator of these sequences.   *)
EXTENDS SarConfig, TLC, Json
CONSTANTS Depth
VARIABLE hist
vars == << cvars, hist >>
Objs == {"o0", "o1", "o2"}
Start == [global |-> [csumtype |-> "none", stream |-> "no"], prompt |-> "p", timeout |-> [status |-> "1"]]
MCInit == objs = [o0 |-> Start] /\ tables = << >> /\ hist = << >>
H(x) == hist' = Append(hist, x)
Step == \/ \E a, b \in Objs : a # b /\ Copy(a, b) /\ H(<< "copy", a, b >>)
        \/ \E o \in DOMAIN objs, v \in {"md5", "sha1"} : SetFlag(o, "csumtype", v) /\ H(<< "flag", o, v >>)
        \/ \E o \in DOMAIN objs, v \in {"q"} : SetField(o, "prompt", v) /\ H(<< "field", o, v >>)
        \/ \E o \in DOMAIN objs, v \in {"2"} : SetTimeout(o, "status", v) /\ H(<< "timeout", o, v >>)
MCNext == Len(hist) < Depth /\ Step
MCSpec == MCInit /\ [][MCNext]_vars
\* the flag of an object, from the history alone
RECURSIVE FlagFrom(_, _)
FlagFrom(h, o) == IF h = << >> THEN "none"
  ELSE LET e == h[Len(h)]
           before == SubSeq(h, 1, Len(h) - 1) IN
       IF e[1] = "flag" /\ e[2] = o THEN e[3]
       ELSE IF e[1] = "copy" /\ e[3] = o THEN FlagFrom(before, e[2])
       ELSE FlagFrom(before, o)
Own == \A o \in DOMAIN objs : objs[o].global["csumtype"] = FlagFrom(hist, o)
OnlyThat == [][\A o \in DOMAIN objs : objs'[o] # objs[o] =>
                 LET e == hist'[Len(hist')] IN o = IF e[1] = "copy" THEN e[3] ELSE e[2]]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
