------------------------------- MODULE MCNode -------------------------------
(* Checks of SarNode and SarLoop, and the generator of datagrams.                        *)
EXTENDS SarLoop, Json
VARIABLE gram
CONSTANT Max

all == << nvars, gram >>
MCNodeSpec == /\ NodeInit /\ come = {} /\ gram = << >>
              /\ [][NodeNext /\ UNCHANGED gram]_all
              /\ WF_all(Transmit /\ UNCHANGED gram)
              /\ \A f \in Families : WF_all(Read(f) /\ UNCHANGED gram) /\ SF_all(Hand(f) /\ UNCHANGED gram)

DS == {"d16", "d32", "d64", "d128"}
Z(n) == [i \in 1 .. n |-> (i * 37) % 256]
Sess == << 1, 2, 3, 4 >>
Ts(t) == << t >> \o << 0, 0, 0, 9, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0 >>
H(ft, d) == Set(Base(ft), "descriptor", d)
Zx == {<< >>} \cup { Ts(t) : t \in {0, 1, 2, 3, 4, 5, 6, 255} }
Well ==
  { (IF t = << >> THEN H("data", d) ELSE Set(H("data", d), "reqtstamp", "yes")) \o Sess \o t \o Z(8) \o << 65, 66 >> : d \in DS, t \in Zx } \cup
  { (IF t = << >> THEN H("status", d) ELSE Set(H("status", d), "reqtstamp", "yes")) \o Sess \o t \o Z(n) : d \in DS, t \in Zx, n \in {16, 32, 48, 35} } \cup
  { Set(H("metadata", "d16"), "csumlen", c) \o Sess \o Z(4 * Fields.csumlen.opts[c]) \o SetD(<< 0, 0 >>, "descriptor", d) \o Z(16) \o << 97, 0 >> :
      c \in {"none", "crc32", "md5", "sha1"}, d \in DS } \cup
  { Set(Set(H("request", d), "reqtype", t), "rxwilling", "yes") \o Sess \o f : d \in DS, t \in DOMAIN Fields.reqtype.opts,
      f \in { << 0 >>, << 120, 0 >>, << 120 >>, << 46, 46, 47, 111, 0, 9, 9 >> } } \cup
  { Set(Set(H("beacon", "d64"), "freespace", "yes"), "freespaced", d) \o Z(8) \o << 97, 45, 49 >> : d \in DS } \cup
  { H("beacon", d) \o << 97, 45, 49, 50 >> : d \in DS }
Cuts == UNION { { Take(b, k) : k \in 0 .. Len(b) } : b \in { x \in Well : Name(x, "frametype") # "request" } }
Twisted == UNION { { SetBits(b, 0, 3, v) : v \in 0 .. 7 } \cup { SetBits(b, 3, 5, t) : t \in 0 .. 31 } :
                  b \in { x \in Well : ~HasTs(x) } }
Every == Well \cup Cuts \cup Twisted
GenInit == gram = << >> /\ class = << >> /\ fam = << >> /\ sock = << >> /\ lst = << >> /\ main = Idle /\ answered = << >> /\ come = {}
GenNext == gram = << >> /\ gram' \in Every /\ UNCHANGED nvars
GenSpec == GenInit /\ [][GenNext]_<< gram, nvars >>

OneVerdict == Cardinality(Verdicts(gram, Max)) = 1 \/ Verdicts(gram, Max) = {"bad", "take"}
\* the answer of a node, sent to a node, is answered by nobody
Reply(v) == LET h == Set(Set(Base("status"), "errcode", "badpacket"), "metadatarecvd", "no")
                d == IF v = "bad" /\ DWidth(gram) < 16 THEN Name(gram, "descriptor") ELSE "d64" IN
            Set(h, "descriptor", d) \o SessionOf(v, gram) \o Zeros(2 * DWidth(Set(h, "descriptor", d)))
NoPingPong == \A v \in Verdicts(gram, Max) \cap {"bad", "version"} :
                IsAnswer(v, gram, Reply(v)) /\ Verdicts(Reply(v), Max) = {"take"}
\* cutting a frame short never turns a bad one into one that is acted upon
Short == Len(gram) < 8 => Verdicts(gram, Max) = {"drop"}
Emit == gram # << >> => PrintT("SCEN " \o ToJson(gram))
=============================================================================
