------------------------------ MODULE SarBlocks ------------------------------
(***************************************************************************)
(* Files read and written in blocks at offsets through open handles.       *)
(*                                                                         *)
(* files[f] says whether it is there and the sequence of blocks [off,     *)
(* data] written to it, the later ones over the earlier ones.  Offsets are *)
(* 8-byte numbers.                                                         *)
(* handles[h] is the file it is open on, how, and whether it is open; the  *)
(* handle of a file that was removed is on no file.                        *)
(***************************************************************************)
EXTENDS SarBytes, FiniteSets

VARIABLES files, handles
bvars == << files, handles >>

Gone == [there |-> FALSE, blocks |-> << >>]
Num(n) == Zeros(4) \o ToB4(n)
End(s) == Plus(s.off, Num(Len(s.data)))
\* an offset that no file can have
TooFar(off) == off[1] >= 128

RECURSIVE SizeOf(_)
SizeOf(c) == IF c = << >> THEN Zeros(8)
             ELSE LET s == SizeOf(SubSeq(c, 1, Len(c) - 1))
                      e == End(c[Len(c)]) IN IF c[Len(c)].data = << >> \/ LessEq(e, s) THEN s ELSE e
\* the byte at position p: of the last block that covers it, zero in gaps
Covers(s, p) == LessEq(s.off, p) /\ Less(p, End(s))
Over(c, p, n) == LET e == Plus(p, Num(n)) IN        \* the blocks that touch p .. p+n-1
                 SelectSeq(c, LAMBDA s : Less(s.off, e) /\ Less(p, End(s)))
RECURSIVE ByteAt(_, _)
ByteAt(c, p) == IF c = << >> THEN 0
                ELSE LET s == c[Len(c)] IN
                     IF Covers(s, p) THEN s.data[Int4(Low(Minus(p, s.off), 4)) + 1]
                     ELSE ByteAt(SubSeq(c, 1, Len(c) - 1), p)
\* what reading n bytes at p gives
Avail(c, p, n) == LET z == SizeOf(c) IN
                  IF LessEq(z, p) THEN 0
                  ELSE LET left == Minus(z, p) IN IF LessEq(Num(n), left) THEN n ELSE Int4(Low(left, 4))
Block(c, p, n) == LET d == Over(c, p, n) IN [i \in 1 .. Avail(c, p, n) |-> ByteAt(d, Plus(p, Num(i - 1)))]

OpenH(h) == h \in DOMAIN handles /\ handles[h].open
CanRead(h)  == OpenH(h)
CanWrite(h) == OpenH(h) /\ handles[h].mode = "rw"
Removed(h)  == handles[h].file = ""
Content(h)  == files[handles[h].file].blocks

BInit(F) == files = [f \in F |-> Gone] /\ handles = << >>
\* a new file, open for reading and writing
Create(h, f) == /\ files[f] = Gone
                /\ files' = [files EXCEPT ![f] = [there |-> TRUE, blocks |-> << >>]]
                /\ handles' = [x \in DOMAIN handles \cup {h} |-> IF x = h THEN [file |-> f, mode |-> "rw", open |-> TRUE] ELSE handles[x]]
\* an existing one for reading
OpenOld(h, f) == /\ files[f] # Gone
                 /\ handles' = [x \in DOMAIN handles \cup {h} |-> IF x = h THEN [file |-> f, mode |-> "r", open |-> TRUE] ELSE handles[x]]
                 /\ UNCHANGED files
WriteAt(h, p, d) == /\ CanWrite(h)
                    /\ files' = IF Removed(h) THEN files
                                ELSE [files EXCEPT ![handles[h].file].blocks = Append(@, [off |-> p, data |-> d])]
                    /\ UNCHANGED handles
Close(h) == OpenH(h) /\ handles' = [handles EXCEPT ![h].open = FALSE] /\ UNCHANGED files
\* remove a file; its handles stay as they are but on no file
Unlinked(hs, f) == [x \in DOMAIN hs |-> IF hs[x].file = f THEN [hs[x] EXCEPT !.file = ""] ELSE hs[x]]
Remove(f) == /\ files[f] # Gone /\ files' = [files EXCEPT ![f] = Gone]
             /\ handles' = Unlinked(handles, f)
\* close and remove
Delete(h) == /\ OpenH(h) /\ ~Removed(h)
             /\ handles' = Unlinked([handles EXCEPT ![h].open = FALSE], handles[h].file)
             /\ files' = [files EXCEPT ![handles[h].file] = Gone]
Refuse == UNCHANGED bvars
=============================================================================
