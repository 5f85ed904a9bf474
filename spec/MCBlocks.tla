------------------------------ MODULE MCBlocks ------------------------------
(* SarBlocks against a plain array of bytes, exhaustively on short files;    *)
(* and the generator of sequences of operations.                             *)
EXTENDS SarBlocks, TLC, Json
CONSTANTS MaxOff, Depth
VARIABLES array, hist
vars == << files, handles, array, hist >>
Data == {<< >>, << 1 >>, << 2, 3 >>, << 4, 5, 6 >>}
\* writing to a plain array
Max(a, b) == IF a > b THEN a ELSE b
Written(a, o, d) == IF d = << >> THEN a
  ELSE [i \in 1 .. Max(Len(a), o + Len(d)) |->
         IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE IF i <= Len(a) THEN a[i] ELSE 0]
MCInit == BInit({"a"}) /\ array = << >> /\ hist = << >>
Do == \/ \E h \in {1} : Create(h, "a") /\ array' = << >> /\ hist' = Append(hist, << "create" >>)
      \/ \E o \in 0 .. MaxOff, d \in Data : WriteAt(1, Num(o), d) /\ files["a"] # Gone /\ array' = Written(array, o, d)
                                            /\ hist' = Append(hist, << "write", o, Len(d) >>)
      \/ Close(1) /\ UNCHANGED array /\ hist' = Append(hist, << "close" >>)
      \/ OpenOld(1, "a") /\ UNCHANGED array /\ hist' = Append(hist, << "open" >>)
      \/ Delete(1) /\ array' = << >> /\ hist' = Append(hist, << "delete" >>)
MCNext == Len(hist) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_vars
Same == files["a"] # Gone =>
  /\ SizeOf(files["a"].blocks) = Num(Len(array))
  /\ \A p \in 0 .. (MaxOff + 4), n \in 0 .. 4 :
       Block(files["a"].blocks, Num(p), n) = SubSeq(array, p + 1, IF p + n < Len(array) THEN p + n ELSE Len(array))
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
