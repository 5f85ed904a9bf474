------------------------------- MODULE SarMeta -------------------------------
(***************************************************************************)
(* What metadata says about the files of the shared directory.             *)
(*                                                                         *)
(* world[p] is the file at path p: its kind ("file", "dir", "fifo",        *)
(* "other"), its size (8 bytes), modification and status change time       *)
(* (seconds since 1970, 8 bytes), and the checksums of its content.        *)
(* `frame` is the metadata object, as in SarWire.                          *)
(***************************************************************************)
EXTENDS SarWire

VARIABLES world
mvars == << ftype, frame, world >>

KindFor == [file |-> "file", directory |-> "dir", stream |-> "fifo"]
PropFor == [file |-> "normalfile", dir |-> "normaldirectory", fifo |-> "specialfile"]
CsumTypes == {"none", "crc32", "md5", "sha1"}

Y2K(s) == InstantFits("epoch2000_32", s)
Secs2000(s) == Low(Minus(s, Epoch2000), 4)

\* The header asked for: it says how long the checksum is by itself
AskHdr(h) == IF Name(h, "csumtype") = "" THEN Bad
             ELSE FromHeader("metadata", Set(h, "csumlen", Name(h, "csumtype")))

There(p) == p \in DOMAIN world
\* the description of p with header h is refused, otherwise it must be given
Refused(h, p) ==
  IF ~There(p) \/ Len(p) > 1024 THEN TRUE
  ELSE LET t == Name(h, "transfer")
           f == world[p] IN
       \/ t \notin DOMAIN KindFor
       \/ (IF t \in DOMAIN KindFor THEN f.kind # KindFor[t] ELSE TRUE)
       \/ t # "file" /\ Name(h, "csumtype") # "none"       \* only a file has a checksum
       \/ t # "stream" /\ ~(Y2K(f.mtime) /\ Y2K(f.ctime))

Sum(h, f) == IF f.kind = "file" /\ Name(h, "csumtype") # "none" THEN f.sums[Name(h, "csumtype")] ELSE << >>
\* g describes the file p for header h; a named pipe has no size and the
\* time of asking, between lo and hi
Describes(g, h, s, p, lo, hi) ==
  LET f == world[p] IN
  /\ g.hdr = h /\ g.session = s /\ g.path = p
  /\ NameD(g.dhdr, "property") = PropFor[f.kind] /\ GetD(g.dhdr, "sod") = 1
  /\ Width(GetD(g.dhdr, "descriptor")) < 16
  /\ Fits(g.size, Width(GetD(g.dhdr, "descriptor")))
  /\ g.csum = Sum(h, f)
  /\ IF f.kind = "fifo"
     THEN /\ g.size = Z8
          /\ LessEq(Secs2000(lo), g.mtime) /\ LessEq(g.mtime, Secs2000(hi))
          /\ LessEq(Secs2000(lo), g.ctime) /\ LessEq(g.ctime, Secs2000(hi))
     ELSE g.size = f.size /\ g.mtime = Secs2000(f.mtime) /\ g.ctime = Secs2000(f.ctime)

\* one description of f, with the narrowest descriptor
Narrow(v) == IF Fits(v, 2) THEN "d16" ELSE IF Fits(v, 4) THEN "d32" ELSE "d64"
Description(h, s, p, now) ==
  LET f == world[p]
      fifo == f.kind = "fifo"
      z == IF fifo THEN Z8 ELSE f.size IN
  [hdr |-> h, session |-> s, csum |-> Sum(h, f),
   dhdr |-> SetD(SetD(SetD(<< 0, 0 >>, "sod", "sod"), "property", PropFor[f.kind]), "descriptor", Narrow(z)),
   size |-> z, mtime |-> Secs2000(IF fifo THEN now ELSE f.mtime), ctime |-> Secs2000(IF fifo THEN now ELSE f.ctime), path |-> p]

MInit == ftype = "metadata" /\ frame = None /\ world = << >>
\* a file appears or changes
Put(p, f) == /\ world' = [q \in DOMAIN world \cup {p} |-> IF q = p THEN f ELSE world[q]] /\ UNCHANGED wvars
Gone(p) == /\ world' = [q \in DOMAIN world \ {p} |-> world[q]] /\ UNCHANGED wvars
\* describe p: a is the result of FromFlags or AskHdr
Describe(a, s, p, g, ok, lo, hi) ==
  /\ UNCHANGED world
  /\ IF ok THEN /\ a # Bad
                /\ (IF a = Bad THEN FALSE ELSE ~Refused(a.hdr, p) /\ Describes(g, a.hdr, s, p, lo, hi))
                /\ frame' = g /\ UNCHANGED ftype
     ELSE /\ (IF a = Bad THEN TRUE ELSE Refused(a.hdr, p))
          /\ Fails
=============================================================================
