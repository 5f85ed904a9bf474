------------------------------ MODULE SarFiles ------------------------------
(***************************************************************************)
(* The file tree of a node.  The shared directory is one directory in it;  *)
(* names in requests and commands name things inside it and nothing else.  *)
(*                                                                         *)
(* A path is a sequence of components, a component a sequence of bytes.    *)
(* The tree is a set of entries [p, k, d, m]: path, kind ("file", "dir",   *)
(* "rodir": a directory in which nothing can be made or removed, "other":  *)
(* a pipe or a symbolic link), content and attributes that are nobody's    *)
(* business.  Whether something that is neither a file nor a directory     *)
(* counts as existing is open; what is named is that thing itself.         *)
(***************************************************************************)
EXTENDS SarBytes, FiniteSets

VARIABLE tree

Root == << << 115, 97, 114 >> >>            \* "sar": where the shared directory is
Dot == << 46 >>
DotDot == << 46, 46 >>

\* the file a name denotes: "." and empty components stand for nothing, ".."
\* goes up but never above the shared directory
RECURSIVE Walk(_, _)
Walk(cs, acc) ==
  IF cs = << >> THEN acc
  ELSE Walk(Tail(cs),
            IF cs[1] = << >> \/ cs[1] = Dot THEN acc
            ELSE IF cs[1] = DotDot THEN (IF acc = << >> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
            ELSE Append(acc, cs[1]))
Named(cs) == Root \o Walk(cs, << >>)
\* does a name try to go above the shared directory?
RECURSIVE Climbs(_, _)
Climbs(cs, n) ==
  IF cs = << >> THEN FALSE
  ELSE IF cs[1] = << >> \/ cs[1] = Dot THEN Climbs(Tail(cs), n)
  ELSE IF cs[1] = DotDot THEN (IF n = 0 THEN TRUE ELSE Climbs(Tail(cs), n - 1))
  ELSE Climbs(Tail(cs), n + 1)

At(t, p)      == { e \in t : e.p = p }
Exists(t, p)  == \E e \in t : e.p = p
Kind(t, p)    == (CHOOSE e \in t : e.p = p).k
IsDir(t, p)   == \E e \in t : e.p = p /\ e.k \in {"dir", "rodir"}
Strange(t, p) == \E e \in t : e.p = p /\ e.k = "other"
Parent(p)     == SubSeq(p, 1, Len(p) - 1)
Under(p, q)   == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p     \* q is below p
Empty(t, p)   == ~\E e \in t : Under(p, e.p)
Open(t, p)    == \E e \in t : e.p = p /\ e.k = "dir"             \* entries can be made and removed in p

CanRemove(t, p) == /\ Exists(t, p) /\ p # Root /\ Open(t, Parent(p))
                   /\ IsDir(t, p) => Empty(t, p)
Removed(t, p)   == { e \in t : e.p # p }
CanMake(t, p)   == /\ ~Exists(t, p) /\ Under(Root, p) /\ Open(t, Parent(p))
                   /\ Len(p[Len(p)]) \in 1 .. 255
\* what may differ without anybody having touched it: the attributes of directories
Bare(t) == { IF e.k = "file" THEN e ELSE [e EXCEPT !.m = ""] : e \in t }
Made(t, u, p, k) == \E e \in u : /\ e.p = p /\ e.k = k /\ e.d = << >>
                                 /\ Bare(u \ {e}) = Bare(t)

Outside(t) == { e \in t : ~Under(Root, e.p) /\ e.p # Root }
=============================================================================
