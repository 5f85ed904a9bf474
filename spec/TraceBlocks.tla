----------------------------- MODULE TraceBlocks -----------------------------
(* Is a recorded run of the file functions a behaviour of SarBlocks?  After  *)
(* each call the driver looks at the files itself: their sizes and windows   *)
(* around every offset used.                                                 *)
EXTENDS SarBlocks, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev    == Trace[l]
NoCrash == ev.res \in {"ok", "err"}
OK == ev.res = "ok"

\* the files on disk are those of the specification
Looks(fs) == \A f \in DOMAIN fs :
  IF fs[f] = Gone THEN f \notin DOMAIN ev.disk
  ELSE /\ f \in DOMAIN ev.disk
       /\ ev.disk[f].size = SizeOf(fs[f].blocks)
       /\ \A i \in 1 .. Len(ev.disk[f].wins) :
            LET w == ev.disk[f].wins[i] IN w.data = Block(fs[f].blocks, w.off, w.n)
Names == { ev.names[i] : i \in 1 .. Len(ev.names) }
TReset == ev.e = "reset" /\ files' = [f \in Names |-> Gone] /\ handles' = << >>
TOpen == /\ ev.e = "open" /\ NoCrash
         /\ IF ev.how = "new" THEN
              IF files[ev.file] = Gone THEN OK /\ Create(ev.h, ev.file) ELSE ~OK /\ Refuse
            ELSE IF files[ev.file] # Gone THEN OK /\ OpenOld(ev.h, ev.file) ELSE ~OK /\ Refuse
         /\ Looks(files')
\* a write far out may be refused by the file system
FarOut(p) == p[1] > 0 \/ p[2] > 0 \/ p[3] > 0
TWrite == /\ ev.e = "write" /\ NoCrash
          /\ IF CanWrite(ev.h) /\ ~TooFar(ev.off) THEN
               IF Removed(ev.h) THEN Refuse
               ELSE IF OK THEN ev.n = Len(ev.data) /\ WriteAt(ev.h, ev.off, ev.data)
               ELSE FarOut(ev.off) /\ Refuse
             ELSE (OK => ev.data = << >>) /\ Refuse       \* no bytes can be written anywhere
          /\ Looks(files')
TRead == /\ ev.e = "read" /\ NoCrash
         /\ IF CanRead(ev.h) /\ ~TooFar(ev.off) THEN
              IF Removed(ev.h) THEN TRUE     \* what is left of it is not specified
              ELSE LET b == Block(Content(ev.h), ev.off, ev.n) IN
              IF ev.n = 0 THEN OK => ev.out = << >>
              ELSE IF b = << >> THEN ~OK ELSE OK /\ ev.out = b
            ELSE IF ev.n = 0 THEN OK => ev.out = << >> ELSE ~OK
         /\ Refuse /\ Looks(files')
TClose == /\ ev.e = "close" /\ NoCrash
          /\ IF OpenH(ev.h) THEN OK /\ Close(ev.h) ELSE ~OK /\ Refuse
          /\ Looks(files')
TDelete == /\ ev.e = "delete" /\ NoCrash
           /\ IF OpenH(ev.h) THEN IF Removed(ev.h) THEN ~OK /\ Close(ev.h) ELSE OK /\ Delete(ev.h)
              ELSE ~OK /\ Refuse
           /\ Looks(files')
TRemove == /\ ev.e = "remove" /\ NoCrash
           /\ IF files[ev.file] # Gone THEN OK /\ Remove(ev.file) ELSE ~OK /\ Refuse
           /\ Looks(files')
TLook == ev.e = "look" /\ Looks(files) /\ Refuse
TraceInit == l = 1 /\ files = << >> /\ handles = << >>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TOpen \/ TWrite \/ TRead \/ TClose \/ TDelete \/ TRemove \/ TLook)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bvars>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
