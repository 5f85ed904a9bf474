------------------------------- MODULE MCWire -------------------------------
(* Exhaustive check of the encodings on small domains: whatever is encoded   *)
(* is decoded again, nothing else is encoded, what is cut short is never     *)
(* taken for a frame with fields it does not have.  GenSpec generates the    *)
(* flag lists and frames that are replayed in the implementation.            *)
EXTENDS SarWire, Json
CONSTANTS Vals,       \* which numbers to use: a set of indices of VTab
          MaxCut,     \* how much may be cut off
          Types       \* the kinds of frames
VARIABLES wire,       \* the bytes under way
          sent,       \* the frame they were made from
          items       \* (generator) the flags so far
vars == << ftype, frame, wire, sent, items >>

VTab == << Z8, << 0, 0, 0, 0, 0, 0, 255, 255 >>, << 0, 0, 0, 0, 0, 1, 0, 0 >>,
           << 0, 0, 0, 0, 255, 255, 255, 255 >>, << 0, 0, 0, 1, 0, 0, 0, 0 >>,
           << 255, 255, 255, 255, 255, 255, 255, 255 >>, << 0, 0, 0, 0, 0, 0, 1, 2 >> >>
V == { VTab[i] : i \in Vals }
S4 == << 1, 2, 3, 4 >>
Blobs == { << >>, << 0 >>, << 65, 0, 66 >>, << 200, 255 >> }
Namesx == { << >>, << 65 >>, << 65, 195, 169 >> }
Times == { TimeBytes(TimeOf("posix32", VTab[4], Z4)), TimeBytes(TimeOf("posix64_32", VTab[6], << 0, 0, 0, 9 >>)),
           TimeBytes(TimeOf("localinterp", Z8, Z4)) }
DS == {"d16", "d32", "d64", "d128"}
WithTs(h, t) == IF t = << >> THEN Set(h, "reqtstamp", "no") ELSE Set(h, "reqtstamp", "yes")
Domain(ft) ==
  CASE ft = "data" ->
         { [hdr |-> WithTs(Set(Base(ft), "descriptor", d), t), session |-> S4, ts |-> t, off |-> o, pay |-> p] :
           d \in DS, t \in Times \cup {<< >>}, o \in V, p \in Blobs }
    [] ft = "status" ->
         { [hdr |-> WithTs(Set(Base(ft), "descriptor", d), t), session |-> S4, ts |-> t, prog |-> o, inr |-> i, holes |-> h] :
           d \in DS, t \in {<< >>, TimeBytes(TimeOf("posix32", VTab[4], Z4))}, o \in V, i \in V,
           h \in {<< >>} \cup { << << v, w >> >> : v, w \in V } \cup { << << Z8, v >>, << v, w >> >> : v, w \in V } }
    [] ft = "request" ->
         { [hdr |-> Set(Base(ft), "reqtype", r), session |-> S4, fname |-> n, auth |-> p] :
           r \in {"get", "getdir"}, n \in Namesx \cup {<< 65, 0 >>}, p \in Blobs }
    [] ft = "metadata" ->
         { [hdr |-> Set(Set(Base(ft), "csumtype", c), "csumlen", c), session |-> S4,
            csum |-> [i \in 1 .. 4 * Code(Fields, "csumlen", c) |-> i], dhdr |-> SetD(SetD(<< 0, 0 >>, "sod", "sod"), "descriptor", d),
            size |-> s, mtime |-> m, ctime |-> t, path |-> n] :
           c \in {"none", "crc32", "md5", "sha1"}, d \in DS, s \in V, n \in Namesx, m \in {Z4, << 0, 0, 0, 1 >>}, t \in {Z4, << 255, 255, 255, 255 >>} }
    [] ft = "beacon" ->
         { [hdr |-> Set(Set(Base(ft), "freespace", "yes"), "freespaced", d), fs |-> s, eid |-> n] :
           d \in DS, s \in V, n \in Namesx }
         \cup { [hdr |-> Base(ft), fs |-> Z8, eid |-> n] : n \in Namesx }

MCInit == /\ ftype \in Types /\ frame = None /\ wire = << >> /\ sent = None /\ items = << >>
Fill   == /\ sent = None /\ frame = None
          /\ \E f \in Domain(ftype) : frame' = f
          /\ UNCHANGED << ftype, wire, sent, items >>
Encode == /\ frame # None /\ sent = None /\ Encodable(ftype, frame)
          /\ wire' = BytesOf(ftype, frame) /\ sent' = frame /\ frame' = None
          /\ UNCHANGED << ftype, items >>
Lose   == /\ sent # None /\ frame = None
          /\ \E k \in 1 .. MaxCut : k <= Len(wire) /\ wire' = Take(wire, Len(wire) - k)
          /\ UNCHANGED << ftype, frame, sent, items >>
Receive == /\ sent # None /\ frame = None /\ Denotes(ftype, wire)
           /\ Decode(wire, TRUE)
           /\ UNCHANGED << wire, sent, items >>
MCNext == Fill \/ Encode \/ Lose \/ Receive
MCSpec == MCInit /\ [][MCNext]_vars

Whole == sent # None => wire = BytesOf(ftype, sent)       \* nothing was cut
RoundTrip == (sent # None /\ wire = BytesOf(ftype, sent)) =>
             Denotes(ftype, wire) /\ ~DecOpen(ftype, wire) /\ ValOf(ftype, wire) = sent
\* what is received is what those very bytes mean and can be sent on unchanged
Stable == (sent # None /\ frame # None /\ ~DecOpen(ftype, wire)) =>
          Encodable(ftype, frame) /\ BytesOf(ftype, frame) = wire
\* header, session and every number survive or the frame is refused
NoGarbling == (sent # None /\ frame # None) =>
  /\ frame.hdr = sent.hdr
  /\ ftype = "data" => frame.off = sent.off /\ frame.ts = sent.ts /\ frame.pay = Take(sent.pay, Len(frame.pay))
  /\ ftype = "status" => frame.prog = sent.prog /\ frame.inr = sent.inr /\ frame.holes = Take(sent.holes, Len(frame.holes))
  /\ ftype = "request" => frame.fname = sent.fname
  /\ ftype = "metadata" => frame.size = sent.size /\ frame.csum = sent.csum
  /\ ftype = "beacon" => frame.fs = sent.fs

----------------------------------------------------------------------------
(* Generator of flag lists: all lists of one or two items                   *)
Wrong == { << "descriptor" >>, << "" >>, << "bogus", "yes" >>, << "descriptor", "d17" >>, << "descriptor", "d16", "x" >>,
           << "descriptor", "" >>, << "", "d16" >>, << "errcode", "yes" >>, << "version", "v1" >> }
Items(ft) ==
  { << n, o >> : n \in (FrameFields[ft] \ {"version", "frametype", "csumlen"}), o \in {"yes", "no", "d16", "d32", "d64", "d128", "bundle"} }
  \cup UNION { { << n, o >> : o \in DOMAIN Fields[n].opts } : n \in (FrameFields[ft] \ {"version", "frametype", "csumlen"}) }
  \cup Wrong
  \cup (IF ft = "data" THEN { << "reqtstamp", t >> : t \in TimeTypes } ELSE {})
  \cup (IF ft = "status" THEN { << t >> : t \in TimeTypes \ {"epoch2000_32"} } ELSE {})
GenNext == /\ Len(items) < 2
           /\ \E it \in Items(ftype) : items' = Append(items, it)
           /\ UNCHANGED << ftype, frame, wire, sent >>
GenSpec == MCInit /\ [][GenNext]_vars
\* a valid and an invalid item, or two valid ones for the same or other fields
Emit == Len(items) > 0 => PrintT("SCEN " \o ToJson([ft |-> ftype, flags |-> items]))

\* Generator of frames, given directly
FrameNext == Fill
FrameSpec == MCInit /\ [][FrameNext]_vars
EmitFrame == frame # None => PrintT("SCEN " \o ToJson([ft |-> ftype, frame |-> frame]))
=============================================================================
