------------------------------ MODULE TraceWire ------------------------------
(* Is a recorded run of the frame codecs a behaviour of SarWire?             *)
EXTENDS SarWire, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]

\* What the object holds: its timestamp only counts if the header has one
Shown(g) == IF ftype \in {"data", "status"}
            THEN [g EXCEPT !.ts = IF HasTs(g.hdr) THEN @ ELSE << >>] ELSE g

TReset == ev.e = "reset" /\ ftype' = ev.ft /\ frame' = None

\* The frame asked for with header result a
Asked(a, g) ==
  CASE ftype = "data" -> /\ g = [g EXCEPT !.hdr = a.hdr, !.session = ev.info.session, !.off = ev.info.off, !.pay = ev.info.pay]
                         /\ BuildTs(a, g.ts, ev.t0, ev.t1)
    [] ftype = "status" -> /\ g = [g EXCEPT !.hdr = a.hdr, !.session = ev.info.session, !.prog = ev.info.prog,
                                            !.inr = ev.info.inr, !.holes = ev.info.holes]
                           /\ BuildTs(a, g.ts, ev.t0, ev.t1)
    [] ftype = "request" -> g = [hdr |-> a.hdr, session |-> ev.info.session, fname |-> ev.info.fname, auth |-> ev.info.auth]
    [] ftype = "beacon" ->
         /\ g.eid = ev.info.eid
         /\ IF Advertises(a.hdr)
            THEN /\ (ev.info.fs # Z8 => g.fs = ev.info.fs)
                 /\ g.hdr = Set(a.hdr, "freespaced", FsDesc(g.fs))
            ELSE g.fs = Z8 /\ g.hdr = a.hdr
    [] ftype = "metadata" ->
         \* what it says about the file is C21; here it must be consistent
         /\ g.hdr = a.hdr /\ g.session = ev.info.session /\ g.path = ev.info.fname
         /\ Len(g.csum) = 4 * Get(g.hdr, "csumlen")
         /\ GetD(g.dhdr, "sod") = 1
         /\ Width(GetD(g.dhdr, "descriptor")) < 16 /\ Fits(g.size, Width(GetD(g.dhdr, "descriptor")))
TooBig(a) == ftype = "beacon" /\ Advertises(a.hdr) /\ AllOnes(ev.info.fs)
MustFail(a) == IF a = Bad THEN TRUE ELSE TooBig(a)
\* a name with a zero byte may be refused at once or when it is encoded
MayFail(a) == IF a = Bad THEN TRUE
              ELSE CASE ftype = "metadata" -> ev.info.mayfail
                     [] ftype = "request" -> FindZero(ev.info.fname, 1) # 0
                     [] OTHER -> TooBig(a)
TBuilt(a) ==
  IF ev.res = "ok" THEN (IF MustFail(a) THEN FALSE ELSE Asked(a, ev.got)) /\ Build(a, Shown(ev.got), ev.t0, ev.t1)
  ELSE ev.res = "err" /\ MayFail(a) /\ Fails
\* an object used before may start from the header it had
TNew  == ev.e = "new" /\ \E h \in {Zeros(4), ev.old} : TBuilt(FromFlagsOn(ftype, h, ev.flags))
\* a header says how long the checksum is by itself
MadeOf(h) == IF ftype # "metadata" THEN FromHeader(ftype, h)
             ELSE IF Name(h, "csumtype") = "" THEN Bad
             ELSE FromHeader(ftype, Set(h, "csumlen", Name(h, "csumtype")))
TMake == ev.e = "make" /\ TBuilt(MadeOf(ev.hdr))
\* the fields are filled in directly
TSet  == ev.e = "set" /\ ev.res = "ok" /\ frame' = Shown(ev.got) /\ UNCHANGED ftype

TEnc  == /\ ev.e \in {"enc", "send"} /\ frame # None
         /\ IF Encodable(ftype, frame) THEN ev.res = "ok" /\ ev.bytes = BytesOf(ftype, frame)
                                       ELSE ev.res = "err"
         /\ UNCHANGED wvars
\* the same bytes into a new object and into one that held something else
TDec  == /\ ev.e = "dec"
         /\ ev.res \in {"ok", "err"}
         /\ Decode(ev.bytes, ev.res = "ok")
         /\ ev.res = "ok" => frame' = Shown(ev.got)
         /\ ev.res2 = ev.res
         /\ ev.res = "ok" => Shown(ev.got2) = Shown(ev.got)

TraceInit == l = 1 /\ WInit("data")
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TNew \/ TMake \/ TSet \/ TEnc \/ TDec)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, wvars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
