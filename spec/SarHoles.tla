------------------------------ MODULE SarHoles ------------------------------
(***************************************************************************)
(* What has been received of a transfer, and the holes that are left.      *)
(*                                                                         *)
(* The abstract state is `recv`, the set of byte positions received.  The  *)
(* implementation keeps it as a list of ranges <<start, end>> (end not     *)
(* included); `Ranges(S)` is the one list of maximal ranges that describes *)
(* a set S, `HolesOf(S)` the one list of maximal gaps below its highest    *)
(* byte.  Byte sets are written as sets of unit positions on a number line *)
(* that may be *scaled*: a trace over offsets near 2^62 is mapped to the   *)
(* positions of its distinct offsets (see TraceHoles), so the spec only    *)
(* ever sees small naturals.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLE recv           \* the set of unit positions received

Span(s, e) == IF e <= s THEN {} ELSE s .. (e - 1)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The maximal ranges of S from position p upwards, in order
RECURSIVE RangesFrom(_, _)
RangesFrom(S, p) ==
  LET above == { x \in S : x >= p } IN
  IF above = {} THEN << >>
  ELSE LET lo == MinOf(above)
           hi == CHOOSE h \in (lo + 1) .. (MaxOf(above) + 1) :
                    h \notin S /\ \A x \in lo .. (h - 1) : x \in S
       IN << <<lo, hi>> >> \o RangesFrom(S, hi)

Ranges(S) == RangesFrom(S, 0)

\* The gaps: maximal ranges of what is missing below the highest byte received
HolesOf(S) == IF S = {} THEN << >>
              ELSE Ranges((0 .. MaxOf(S)) \ S)

HolesInit == recv = {}

\* A data frame with bytes s up to (not including) e was received
Add(s, e) == recv' = recv \cup Span(s, e)

(***************************************************************************)
(* The ranges kept by the implementation are a function of `recv` alone:   *)
(* order, repetition and overlap of the Adds cannot matter.                *)
(***************************************************************************)
Canonical(rs) == /\ \A k \in 1 .. Len(rs) : rs[k][1] < rs[k][2]
                 /\ \A k \in 1 .. (Len(rs) - 1) : rs[k][2] < rs[k + 1][1]
Covered(rs) == UNION { Span(rs[k][1], rs[k][2]) : k \in 1 .. Len(rs) }

\* Sanity of the specification itself (checked exhaustively by MCHoles)
RangesSound == Canonical(Ranges(recv)) /\ Covered(Ranges(recv)) = recv
HolesSound  == /\ Canonical(HolesOf(recv))
               /\ Covered(HolesOf(recv)) \cap recv = {}
               /\ recv # {} => Covered(HolesOf(recv)) \cup recv = 0 .. MaxOf(recv)
Complete    == (HolesOf(recv) = << >>) <=> (recv = {} \/ recv = 0 .. MaxOf(recv))
GrowOnly    == [][recv \subseteq recv']_recv
=============================================================================
