------------------------------ MODULE SarFlags ------------------------------
(***************************************************************************)
(* The header fields of the Saratoga protocol: where each field sits and   *)
(* what its named options are; and the textual flag lists in which the     *)
(* program keeps settings.  This is the protocol's own table, independent  *)
(* of the configuration file from which the program reads its table.      *)
(***************************************************************************)
EXTENDS SarBytes, FiniteSets

LOCAL YN == [no |-> 0, yes |-> 1]
LOCAL DS == [d16 |-> 0, d32 |-> 1, d64 |-> 2, d128 |-> 3]
LOCAL Will == [no |-> 0, invalid |-> 1, capable |-> 2, yes |-> 3]
LOCAL F(m, l, o) == [msb |-> m, len |-> l, opts |-> o]

\* Frame headers: 4 bytes
Fields == [
  version       |-> F(0, 3, [v0 |-> 0, v1 |-> 1]),
  frametype     |-> F(3, 5, [beacon |-> 0, request |-> 1, metadata |-> 2, data |-> 3, status |-> 4]),
  descriptor    |-> F(8, 2, DS),
  stream        |-> F(11, 1, YN),
  transfer      |-> F(10, 2, [file |-> 0, directory |-> 1, bundle |-> 2, stream |-> 3]),
  reqtstamp     |-> F(12, 1, YN),
  progress      |-> F(12, 1, [inprogress |-> 0, terminated |-> 1]),
  txwilling     |-> F(12, 2, Will),
  rxwilling     |-> F(14, 2, Will),
  metadatarecvd |-> F(13, 1, [yes |-> 0, no |-> 1]),
  reliability   |-> F(13, 1, [udponly |-> 0, udplite |-> 1]),
  allholes      |-> F(14, 1, [yes |-> 0, no |-> 1]),
  reqholes      |-> F(15, 1, [requested |-> 0, voluntarily |-> 1]),
  reqstatus     |-> F(15, 1, YN),
  udplite       |-> F(16, 1, YN),
  eod           |-> F(16, 1, YN),
  freespace     |-> F(17, 1, YN),
  freespaced    |-> F(18, 2, DS),
  csumlen       |-> F(24, 4, [none |-> 0, crc32 |-> 1, invalid2 |-> 2, invalid3 |-> 3, md5 |-> 4, sha1 |-> 5]),
  csumtype      |-> F(28, 4, [none |-> 0, crc32 |-> 1, md5 |-> 2, sha1 |-> 3]),
  reqtype       |-> F(24, 8, [noaction |-> 0, get |-> 1, put |-> 2, take |-> 3, give |-> 4, delete |-> 5, getdir |-> 6]),
  errcode       |-> F(24, 8, [success |-> 0, unspecified |-> 1, cantsend |-> 2, cantreceive |-> 3,
                     filenotfound |-> 4, accessdenied |-> 5, unknownid |-> 6, didnotdelete |-> 7, filetobig |-> 8,
                     badoffset |-> 9, badpacket |-> 10, badrequest |-> 11, internaltimeout |-> 12, baddataflag |-> 13,
                     rxnotinterested |-> 14, fileinuse |-> 15, metadatarequired |-> 16, badstatus |-> 17, rxtimeout |-> 18]) ]

\* Directory entry headers: 2 bytes
DirFields == [
  sod        |-> F(0, 1, [sod |-> 1]),
  property   |-> F(6, 2, [normalfile |-> 0, normaldirectory |-> 1, specialfile |-> 2, specialdirectory |-> 3]),
  descriptor |-> F(8, 2, DS),
  reserved   |-> F(10, 1, [reserved |-> 0]) ]

\* The timestamp header: one byte, one unnamed field
TimeField == F(0, 8, [localinterp |-> 0, posix32 |-> 1, posix64 |-> 2, posix32_32 |-> 3, posix64_32 |-> 4, epoch2000_32 |-> 5])

\* The fields of a header of each kind that may be set by the user's flags
FrameFields == [
  beacon   |-> {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
  request  |-> {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "reqtype"},
  metadata |-> {"version", "frametype", "descriptor", "transfer", "progress", "reliability", "csumlen", "csumtype"},
  data     |-> {"version", "frametype", "descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
  status   |-> {"version", "frametype", "descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"} ]

----------------------------------------------------------------------------
\* tab is one of Fields, DirFields; f a field name; o an option name
Known(tab, f)    == f \in DOMAIN tab
ValidOpt(tab, f, o) == f \in DOMAIN tab /\ o \in DOMAIN tab[f].opts
Code(tab, f, o)  == tab[f].opts[o]
FGet(tab, h, f)  == GetBits(h, tab[f].msb, tab[f].len)
FSet(tab, h, f, o) == SetBits(h, tab[f].msb, tab[f].len, tab[f].opts[o])
NameOf(fd, v)    == IF \E o \in DOMAIN fd.opts : fd.opts[o] = v
                    THEN CHOOSE o \in DOMAIN fd.opts : fd.opts[o] = v ELSE ""
FName(tab, h, f) == NameOf(tab[f], FGet(tab, h, f))

Get(h, f)    == FGet(Fields, h, f)
Name(h, f)   == FName(Fields, h, f)
Set(h, f, o) == FSet(Fields, h, f, o)
GetD(h, f)   == FGet(DirFields, h, f)
NameD(h, f)  == FName(DirFields, h, f)
SetD(h, f, o) == FSet(DirFields, h, f, o)
TName(b)     == NameOf(TimeField, b)
TCode(n)     == TimeField.opts[n]

\* Width in bytes of a descriptor
Width(d) == CASE d = 0 -> 2 [] d = 1 -> 4 [] d = 2 -> 8 [] d = 3 -> 16

----------------------------------------------------------------------------
(* Textual flag lists: a sequence of <<name, value>> pairs                  *)
Names(fl) == { fl[i][1] : i \in 1 .. Len(fl) }
AddTo(tab, fl, f, o) == IF ValidOpt(tab, f, o) THEN Append(fl, << f, o >>) ELSE fl
\* for a list in which no name occurs twice, and a valid option
ReplaceIn(tab, fl, f, o) ==
  IF f \in Names(fl) THEN [i \in 1 .. Len(fl) |-> IF fl[i][1] = f THEN << f, o >> ELSE fl[i]]
  ELSE AddTo(tab, fl, f, o)
Others(fl, f) == SelectSeq(fl, LAMBDA p : p[1] # f)
ValueIn(fl, f) == IF f \in Names(fl)
                  THEN fl[CHOOSE i \in 1 .. Len(fl) : fl[i][1] = f /\ \A j \in 1 .. (i - 1) : fl[j][1] # f][2]
                  ELSE ""
=============================================================================
