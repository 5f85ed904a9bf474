------------------------------ MODULE SarFrames ------------------------------
(***************************************************************************)
(* The five frames of the protocol and their encodings.                    *)
(*                                                                         *)
(*   data      [hdr, session, ts, off, pay]                                *)
(*   status    [hdr, session, ts, prog, inr, holes]                        *)
(*   request   [hdr, session, fname, auth]                                 *)
(*   metadata  [hdr, session, csum, dhdr, size, mtime, ctime, path]        *)
(*   beacon    [hdr, fs, eid]                                              *)
(* hdr is 4 bytes, session 4, ts 16 or none, off/prog/inr/size/fs 8, holes *)
(* a sequence of pairs of 8 bytes, dhdr 2, mtime and ctime 4 (seconds      *)
(* since 2000).                                                            *)
(***************************************************************************)
EXTENDS SarTime, TLC

FrameTypes == {"beacon", "request", "metadata", "data", "status"}
None == [none |-> TRUE]

Z1(n) == Zeros(n)
Base(ft) == Set(Set(Zeros(4), "version", "v1"), "frametype", ft)

HasTs(h)  == Get(h, "reqtstamp") = 1
DWidth(h) == Width(Get(h, "descriptor"))

----------------------------------------------------------------------------
(* Encodings.  Encodable says when encoding must succeed; otherwise it must *)
(* fail.                                                                    *)
DataEncodable(f) == DWidth(f.hdr) < 16 /\ Fits(f.off, DWidth(f.hdr))
DataBytes(f) == f.hdr \o f.session \o f.ts \o Low(f.off, DWidth(f.hdr)) \o f.pay

HoleBytes(hs, w) == [k \in 1 .. (Len(hs) * 2 * w) |->
                       LET h == hs[((k - 1) \div (2 * w)) + 1]
                           r == (k - 1) % (2 * w) IN
                       IF r < w THEN Low(h[1], w)[r + 1] ELSE Low(h[2], w)[r - w + 1]]
StatusEncodable(f) ==
  LET w == DWidth(f.hdr) IN
  /\ w < 16 /\ Fits(f.prog, w) /\ Fits(f.inr, w)
  /\ \A i \in 1 .. Len(f.holes) : Fits(f.holes[i][1], w) /\ Fits(f.holes[i][2], w)
StatusBytes(f) == LET w == DWidth(f.hdr) IN
  f.hdr \o f.session \o f.ts \o Low(f.prog, w) \o Low(f.inr, w) \o HoleBytes(f.holes, w)

RequestEncodable(f) == FindZero(f.fname, 1) = 0
RequestBytes(f) == f.hdr \o f.session \o f.fname \o << 0 >> \o f.auth

MetaEncodable(f) == LET w == Width(GetD(f.dhdr, "descriptor")) IN
  /\ w < 16 /\ Fits(f.size, w) /\ Len(f.path) <= 1024
  /\ Len(f.csum) = 4 * Get(f.hdr, "csumlen")
MetaBytes(f) == LET w == Width(GetD(f.dhdr, "descriptor")) IN
  f.hdr \o f.session \o f.csum \o f.dhdr \o Low(f.size, w) \o f.mtime \o f.ctime \o f.path \o << 0 >>

Advertises(h) == Get(h, "freespace") = 1
FsWidth(h) == Width(Get(h, "freespaced"))
BeaconEncodable(f) == Advertises(f.hdr) => FsWidth(f.hdr) < 16 /\ Fits(f.fs, FsWidth(f.hdr))
BeaconBytes(f) == f.hdr \o (IF Advertises(f.hdr) THEN Low(f.fs, FsWidth(f.hdr)) ELSE << >>) \o f.eid

Encodable(ft, f) ==
  CASE ft = "data" -> DataEncodable(f) [] ft = "status" -> StatusEncodable(f) [] ft = "request" -> RequestEncodable(f)
    [] ft = "metadata" -> MetaEncodable(f) [] ft = "beacon" -> BeaconEncodable(f)
BytesOf(ft, f) ==
  CASE ft = "data" -> DataBytes(f) [] ft = "status" -> StatusBytes(f) [] ft = "request" -> RequestBytes(f)
    [] ft = "metadata" -> MetaBytes(f) [] ft = "beacon" -> BeaconBytes(f)

----------------------------------------------------------------------------
(* Decodings: does a byte string denote a frame, and which one?  Where the  *)
(* protocol leaves it open (bytes after the last whole hole, a path that    *)
(* is not terminated) DecOpen says that an error is right too.              *)
TsLen(b) == IF HasTs(b) THEN 16 ELSE 0
TsOK(b)  == HasTs(b) => TimeDenoted(SubSeq(b, 9, 24))
\* what an object shows of a timestamp it received: padding is not kept
TsIn(b)  == IF HasTs(b) THEN TimeBytes(TimeVal(SubSeq(b, 9, 24))) ELSE << >>

DataDenotes(b) == /\ Len(b) >= 10 /\ DWidth(b) < 16
                  /\ Len(b) >= 8 + TsLen(b) + DWidth(b) /\ TsOK(b)
DataVal(b) == LET p == 8 + TsLen(b)
                  w == DWidth(b) IN
  [hdr |-> Take(b, 4), session |-> SubSeq(b, 5, 8), ts |-> TsIn(b),
   off |-> Wide(SubSeq(b, p + 1, p + w)), pay |-> Drop(b, p + w)]

StatusDenotes(b) == /\ Len(b) >= 12 /\ DWidth(b) < 16
                    /\ Len(b) >= 8 + TsLen(b) + 2 * DWidth(b) /\ TsOK(b)
StatusVal(b) == LET w == DWidth(b)
                    p == 8 + TsLen(b)
                    q == p + 2 * w
                    n == (Len(b) - q) \div (2 * w) IN
  [hdr |-> Take(b, 4), session |-> SubSeq(b, 5, 8), ts |-> TsIn(b),
   prog |-> Wide(SubSeq(b, p + 1, p + w)), inr |-> Wide(SubSeq(b, p + w + 1, q)),
   holes |-> [i \in 1 .. n |-> << Wide(SubSeq(b, q + 2 * w * (i - 1) + 1, q + 2 * w * (i - 1) + w)),
                                  Wide(SubSeq(b, q + 2 * w * (i - 1) + w + 1, q + 2 * w * i)) >>]]
StatusOpen(b) == LET w == DWidth(b) IN (Len(b) - 8 - TsLen(b)) % (2 * w) # 0

RequestDenotes(b) == Len(b) >= 9 /\ FindZero(b, 9) # 0
RequestVal(b) == LET z == FindZero(b, 9) IN
  [hdr |-> Take(b, 4), session |-> SubSeq(b, 5, 8), fname |-> SubSeq(b, 9, z - 1), auth |-> Drop(b, z)]

MetaP(b) == 8 + 4 * Get(b, "csumlen")                    \* end of the checksum
MetaDH(b) == SubSeq(b, MetaP(b) + 1, MetaP(b) + 2)
MetaW(b) == Width(GetD(MetaDH(b), "descriptor"))
MetaDenotes(b) == /\ Len(b) >= 8 /\ Len(b) >= MetaP(b) + 2
                  /\ MetaW(b) < 16 /\ Len(b) >= MetaP(b) + 2 + MetaW(b) + 8
MetaVal(b) == LET p == MetaP(b) + 2
                  q == p + MetaW(b)
                  z == FindZero(b, q + 9) IN
  [hdr |-> Take(b, 4), session |-> SubSeq(b, 5, 8), csum |-> SubSeq(b, 9, MetaP(b)), dhdr |-> MetaDH(b),
   size |-> Wide(SubSeq(b, p + 1, q)), mtime |-> SubSeq(b, q + 1, q + 4), ctime |-> SubSeq(b, q + 5, q + 8),
   path |-> IF z = 0 THEN Drop(b, q + 8) ELSE SubSeq(b, q + 9, z - 1)]
MetaOpen(b) == FindZero(b, MetaP(b) + 2 + MetaW(b) + 9) = 0

BeaconDenotes(b) == /\ Len(b) >= 4
                    /\ Advertises(b) => FsWidth(b) < 16 /\ Len(b) >= 4 + FsWidth(b)
BeaconVal(b) == LET w == IF Advertises(b) THEN FsWidth(b) ELSE 0 IN
  [hdr |-> Take(b, 4), fs |-> Wide(SubSeq(b, 5, 4 + w)), eid |-> Drop(b, 4 + w)]

Denotes(ft, b) ==
  CASE ft = "data" -> DataDenotes(b) [] ft = "status" -> StatusDenotes(b) [] ft = "request" -> RequestDenotes(b)
    [] ft = "metadata" -> MetaDenotes(b) [] ft = "beacon" -> BeaconDenotes(b)
ValOf(ft, b) ==
  CASE ft = "data" -> DataVal(b) [] ft = "status" -> StatusVal(b) [] ft = "request" -> RequestVal(b)
    [] ft = "metadata" -> MetaVal(b) [] ft = "beacon" -> BeaconVal(b)
DecOpen(ft, b) == CASE ft = "status" -> StatusOpen(b) [] ft = "metadata" -> MetaOpen(b) [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Building a header from textual flags: a sequence of items, each the      *)
(* sequence of its parts between "=" signs.                                 *)
(* The result is a header and the timestamp type wanted, or Bad.            *)
Bad == [bad |-> TRUE]
Hdr(h, t) == [hdr |-> h, tt |-> t]
Settable == [
  data     |-> {"version", "descriptor", "reqstatus", "eod", "transfer"},
  status   |-> {"descriptor", "metadatarecvd", "allholes", "reqholes", "errcode"},
  request  |-> {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"},
  metadata |-> {"descriptor", "progress", "transfer", "reliability"},
  beacon   |-> {"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"} ]

One(ft, a, it) ==
  IF Len(it) = 1 THEN
     IF ft = "status" /\ it[1] \in TimeTypes THEN Hdr(Set(a.hdr, "reqtstamp", "yes"), it[1]) ELSE Bad
  ELSE IF Len(it) # 2 THEN Bad
  ELSE LET n == it[1]
           o == it[2] IN
  IF n \in Settable[ft] THEN
     IF ValidOpt(Fields, n, o) /\ ~(ft = "data" /\ n = "transfer" /\ o = "bundle")
     THEN Hdr(Set(a.hdr, n, o), a.tt) ELSE Bad
  ELSE IF n = "reqtstamp" /\ ft \in {"data", "status"} THEN
     IF o = "no" THEN Hdr(Set(a.hdr, n, "no"), a.tt)
     ELSE IF o = "yes" THEN Hdr(Set(a.hdr, n, "yes"), "posix32")
     ELSE IF ft = "data" /\ o \in TimeTypes THEN Hdr(Set(a.hdr, n, "yes"), o)
     ELSE Bad
  ELSE IF n = "csumtype" /\ ft = "metadata" /\ ValidOpt(Fields, n, o) THEN
     Hdr(Set(Set(a.hdr, "csumtype", o), "csumlen", o), a.tt)
  ELSE IF n = "freespaced" /\ ft = "beacon" /\ o \in {"d16", "d32", "d64"} THEN
     Hdr(Set(Set(a.hdr, "freespace", "yes"), "freespaced", o), a.tt)
  ELSE Bad

RECURSIVE Built(_, _, _)
Built(ft, a, items) == IF a = Bad \/ items = << >> THEN a
                       ELSE Built(ft, One(ft, a, items[1]), Tail(items))
RECURSIVE DropEmpty(_)
DropEmpty(items) == IF Len(items) > 1 /\ items[Len(items)] = << "" >>
                    THEN DropEmpty(SubSeq(items, 1, Len(items) - 1)) ELSE items
\* h is the header that the object had: flags not mentioned may stay
FromFlagsOn(ft, h, items) ==
  Built(ft, Hdr(Set(Set(h, "version", "v1"), "frametype", ft), ""), IF ft = "request" THEN DropEmpty(items) ELSE items)
FromFlags(ft, items) == FromFlagsOn(ft, Zeros(4), items)
FromHeader(ft, h) ==
  LET g == Set(Set(h, "version", "v1"), "frametype", ft) IN
  Hdr(g, IF ft \in {"data", "status"} /\ HasTs(g) THEN "posix32" ELSE "")

\* The width a beacon uses for its free space: the smallest one whose
\* largest value is above it
FsDesc(fs) == IF Fits(fs, 2) /\ ~AllOnes(Low(fs, 2)) THEN "d16"
              ELSE IF Fits(fs, 4) /\ ~AllOnes(Low(fs, 4)) THEN "d32" ELSE "d64"

=============================================================================
