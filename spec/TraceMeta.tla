------------------------------ MODULE TraceMeta ------------------------------
(* Is a recorded run of describing files a behaviour of SarMeta?             *)
EXTENDS SarMeta, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
NoCrash == ev.res \in {"ok", "err"}
OK == ev.res = "ok"

TReset == ev.e = "reset" /\ ftype' = "metadata" /\ frame' = None /\ world' = << >>
TPut == ev.e = "put" /\ Put(ev.path, ev.f)
TGone == ev.e = "gone" /\ Gone(ev.path)
\* metadata of a file, and what its frame says
TMeta == /\ ev.e = "meta" /\ NoCrash
         /\ Describe(IF ev.how = "new" THEN FromFlags("metadata", ev.flags) ELSE AskHdr(ev.hdr),
                     ev.session, ev.path, ev.got, OK, ev.lo, ev.hi)
         /\ OK => ev.sent = MetaBytes(ev.got)
\* the checksum of a file by itself
TSum == /\ ev.e = "sum" /\ NoCrash
        /\ IF ~There(ev.path) THEN ~OK
           ELSE LET f == world[ev.path] IN
                IF f.kind = "file" THEN
                   IF ev.type \in CsumTypes THEN OK /\ ev.out = (IF ev.type = "none" THEN << >> ELSE f.sums[ev.type])
                   ELSE ~OK
                ELSE IF f.kind = "dir" THEN (OK => ev.out = << >>)
                ELSE f.kind = "fifo" => ~OK           \* a link may be followed
        /\ UNCHANGED mvars
\* what is known of a file
TStat == /\ ev.e = "stat" /\ NoCrash
         /\ IF ~There(ev.path) THEN ~OK
            ELSE LET f == world[ev.path] IN
                 IF f.kind = "other" THEN TRUE ELSE
                 /\ OK /\ ev.size = f.size /\ ev.mtime = f.mtime
                 /\ ev.isdir = (f.kind = "dir") /\ ev.isfile = (f.kind = "file") /\ ev.ispipe = (f.kind = "fifo")
         /\ UNCHANGED mvars
TraceInit == l = 1 /\ MInit
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TPut \/ TGone \/ TMeta \/ TSum \/ TStat)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mvars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
