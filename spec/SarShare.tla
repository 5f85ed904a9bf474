------------------------------ MODULE SarShare -------------------------------
(***************************************************************************)
(* Frames are values.  The memory of a program that uses the frames: the   *)
(* buffers it reads datagrams into and gets encodings in, the lists of     *)
(* holes it hands over, the frame objects, and the packets (Val) passed on *)
(* to other parts of the program.  Every operation changes its own target  *)
(* and nothing else: a decoded frame does not change with the buffer it    *)
(* came from, an encoding not with the frame, a packet not with either.    *)
(***************************************************************************)
EXTENDS SarFrames

VARIABLES kind,        \* the kind of frames
          bufs,        \* byte strings: the caller's buffers and encodings
          lists,       \* lists of holes of the caller
          objs,        \* frame objects
          pkts         \* packets passed on
svars == << kind, bufs, lists, objs, pkts >>

SInit(ft, nb, nl, no) ==
  /\ kind = ft
  /\ bufs = [i \in 1 .. nb |-> << >>] /\ lists = [i \in 1 .. nl |-> << >>]
  /\ objs = [i \in 1 .. no |-> None] /\ pkts = << >>

\* the caller writes into its own buffer or list
WriteBuf(b, x)  == bufs' = [bufs EXCEPT ![b] = x] /\ UNCHANGED << kind, lists, objs, pkts >>
WriteList(b, x) == lists' = [lists EXCEPT ![b] = x] /\ UNCHANGED << kind, bufs, objs, pkts >>

\* after a failure an object holds anything: got
Take1(o, ok, want, got) ==
  /\ objs' = [objs EXCEPT ![o] = IF ok THEN want ELSE got]
  /\ UNCHANGED << kind, bufs, lists, pkts >>
DecodeInto(o, b, ok, got) ==
  /\ ok => Denotes(kind, bufs[b])
  /\ ~ok => (Denotes(kind, bufs[b]) => DecOpen(kind, bufs[b]))
  /\ Take1(o, ok, IF ok THEN ValOf(kind, bufs[b]) ELSE None, got)

\* What Make gives for a header, a session and what is in buffer or list b
Made(h, s, n, b) ==
  CASE kind = "data"    -> [hdr |-> h, session |-> s, ts |-> << >>, off |-> n, pay |-> bufs[b]]
    [] kind = "status"  -> [hdr |-> h, session |-> s, ts |-> << >>, prog |-> n, inr |-> n, holes |-> lists[b]]
    [] kind = "request" -> [hdr |-> h, session |-> s, fname |-> << 110 >>, auth |-> bufs[b]]
MakeFrom(o, h, s, n, b) == Take1(o, TRUE, Made(h, s, n, b), None)

\* the encoding is a new buffer
EncodeOf(o, ok) ==
  /\ ok <=> Encodable(kind, objs[o])
  /\ bufs' = IF ok THEN Append(bufs, BytesOf(kind, objs[o])) ELSE bufs
  /\ UNCHANGED << kind, lists, objs, pkts >>
PassOn(o) == pkts' = Append(pkts, objs[o]) /\ UNCHANGED << kind, bufs, lists, objs >>

\* at most one cell of memory changes in a step
Cells(a, b) == { i \in DOMAIN a : IF i \in DOMAIN b THEN a[i] # b[i] ELSE TRUE }
OneCell == [][ Cardinality(Cells(bufs, bufs')) + Cardinality(Cells(lists, lists'))
              + Cardinality(Cells(objs, objs')) + Cardinality(Cells(pkts, pkts')) <= 1 ]_svars
\* what was passed on stays
Kept == [][ pkts = SubSeq(pkts', 1, Len(pkts)) ]_svars
=============================================================================
