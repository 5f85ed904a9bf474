------------------------------- MODULE MCShare -------------------------------
(* All histories of a program with two buffers, two objects and one list of  *)
(* holes; GenSpec writes them out for the replay.                            *)
EXTENDS SarShare, Json
CONSTANTS Kind0, Depth, Keep
VARIABLES hist
vars == << kind, bufs, lists, objs, pkts, hist >>

S1 == << 1, 2, 3, 4 >>
S2 == << 9, 8, 7, 6 >>
N1 == << 0, 0, 0, 0, 0, 0, 1, 2 >>
N2 == << 0, 0, 0, 0, 0, 0, 255, 1 >>
H(ft, d) == Set(Base(ft), "descriptor", d)
MH(ft, c, d) == Set(Set(H(ft, d), "csumtype", c), "csumlen", c)
DH(d) == SetD(SetD(<< 0, 0 >>, "sod", "sod"), "descriptor", d)
Samples ==
  CASE Kind0 = "data" -> { [hdr |-> H("data", "d32"), session |-> S1, ts |-> << >>, off |-> N1, pay |-> << 65, 66, 67 >>],
                           [hdr |-> Set(H("data", "d16"), "reqtstamp", "yes"), session |-> S2,
                            ts |-> TimeBytes(TimeOf("posix32", N1, Z4)), off |-> N2, pay |-> << 97, 98, 99, 100 >>] }
    [] Kind0 = "status" -> { [hdr |-> H("status", "d16"), session |-> S1, ts |-> << >>, prog |-> N1, inr |-> N2, holes |-> << << N1, N2 >> >>],
                             [hdr |-> H("status", "d32"), session |-> S2, ts |-> << >>, prog |-> N2, inr |-> N1,
                              holes |-> << << N2, N2 >>, << N1, N1 >> >>] }
    [] Kind0 = "request" -> { [hdr |-> H("request", "d16"), session |-> S1, fname |-> << 102 >>, auth |-> << 1, 2 >>],
                              [hdr |-> H("request", "d32"), session |-> S2, fname |-> << 103, 104 >>, auth |-> << 3, 4, 5 >>] }
    [] Kind0 = "metadata" -> { [hdr |-> MH("metadata", "crc32", "d16"), session |-> S1, csum |-> << 201, 202, 203, 204 >>, dhdr |-> DH("d16"),
                                size |-> N1, mtime |-> S1, ctime |-> S2, path |-> << 112 >>],
                               [hdr |-> MH("metadata", "md5", "d32"), session |-> S2, csum |-> [i \in 1 .. 16 |-> i], dhdr |-> DH("d32"),
                                size |-> N2, mtime |-> S2, ctime |-> S1, path |-> << 113, 114 >>] }
    [] Kind0 = "beacon" -> { [hdr |-> Base("beacon"), fs |-> Z8, eid |-> << 97, 98 >>],
                             [hdr |-> Set(Set(Base("beacon"), "freespace", "yes"), "freespaced", "d16"), fs |-> N1, eid |-> << 99, 100, 101 >>] }
Contents == { BytesOf(Kind0, f) : f \in Samples } \cup { << 32, 0 >> }
HoleLists == { << << N1, N2 >> >>, << << N2, N1 >>, << N1, N1 >> >> }

Did(x) == hist' = IF Keep THEN Append(hist, x) ELSE Append(hist, 0)
Op(op, o, b, x) == [op |-> op, o |-> o, b |-> b, x |-> x]
Step ==
  \/ \E b \in {1, 2}, x \in Contents : WriteBuf(b, x) /\ Did(Op("write", 0, b, x))
  \/ Kind0 = "status" /\ \E x \in HoleLists : WriteList(1, x) /\ Did(Op("list", 0, 1, x))
  \/ \E o \in {1, 2}, b \in {1, 2} : /\ Denotes(Kind0, bufs[b])
                                      /\ DecodeInto(o, b, TRUE, None) /\ Did(Op("dec", o, b, << >>))
  \/ /\ Kind0 \in {"data", "request", "status"}
     /\ \E o \in {1, 2}, b \in (IF Kind0 = "status" THEN {1} ELSE {1, 2}) :
          MakeFrom(o, H(Kind0, "d32"), S1, N1, b) /\ Did(Op("make", o, b, << >>))
  \/ \E o \in {1, 2} : /\ objs[o] # None /\ Len(bufs) < 4
                       /\ EncodeOf(o, TRUE) /\ Did(Op("enc", o, 0, << >>))
  \/ \E o \in {1, 2} : objs[o] # None /\ Len(pkts) < 2 /\ PassOn(o) /\ Did(Op("val", o, 0, << >>))
Init == SInit(Kind0, 2, 1, 2) /\ hist = << >>
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars
\* every frame anywhere is one of those that some caller's bytes denote
Genuine == \A i \in DOMAIN objs : objs[i] # None => Encodable(Kind0, objs[i])
\* a history ends with something changed after something was taken from it
Emit == (Len(hist) = Depth) => PrintT("SCEN " \o ToJson([kind |-> Kind0, ops |-> hist]))
=============================================================================
