------------------------------ MODULE SarBytes ------------------------------
(***************************************************************************)
(* Byte strings and the numbers they stand for.  TLC's integers are 32 bit *)
(* so a 64-bit (32-bit, 16-bit) number is written as the sequence of its   *)
(* 8 (4, 2) bytes, most significant first; that is also how it travels.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Byte == 0 .. 255
Zeros(n) == [i \in 1 .. n |-> 0]
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256 >>
P2(n) == Pow2[n + 1]                                      \* n <= 8

\* v (8 bytes) fits in n bytes; its low n bytes; and back to 8 bytes
Fits(v, n)  == \A i \in 1 .. (Len(v) - n) : v[i] = 0
Low(v, n)   == SubSeq(v, Len(v) - n + 1, Len(v))
Wide(b)     == Zeros(8 - Len(b)) \o b
AllZero(b)  == \A i \in 1 .. Len(b) : b[i] = 0
AllOnes(b)  == \A i \in 1 .. Len(b) : b[i] = 255

\* Order of two numbers of the same width
RECURSIVE LessEq(_, _)
LessEq(a, b) == IF a = << >> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1]
                ELSE LessEq(Tail(a), Tail(b))
Less(a, b) == a # b /\ LessEq(a, b)

\* Difference and sum of two numbers of the same width, modulo the width
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i = 0 THEN << >>
  ELSE LET d == a[i] - b[i] - borrow IN
       IF d < 0 THEN SubFrom(a, b, i - 1, 1) \o << d + 256 >>
                ELSE SubFrom(a, b, i - 1, 0) \o << d >>
Minus(a, b) == SubFrom(a, b, Len(a), 0)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i = 0 THEN << >>
  ELSE LET s == a[i] + b[i] + carry IN AddFrom(a, b, i - 1, s \div 256) \o << s % 256 >>
Plus(a, b) == AddFrom(a, b, Len(a), 0)

\* Four bytes below 2^31 as a TLC integer, and the other way round
Int4(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
ToB4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Int2(b) == b[1] * 256 + b[2]

\* Bits msb .. msb+len-1 of a byte string, bit 0 being the most significant
\* bit of the first byte.  No field of the protocol crosses a byte.
GetBits(h, msb, len) ==
  LET shift == 8 - (msb % 8) - len IN (h[(msb \div 8) + 1] \div P2(shift)) % P2(len)
SetBits(h, msb, len, v) ==
  LET k == (msb \div 8) + 1
      shift == 8 - (msb % 8) - len
      old == GetBits(h, msb, len)
  IN [h EXCEPT ![k] = @ - old * P2(shift) + v * P2(shift)]

\* Position of the first zero byte in b from position p on, 0 if there is none
FindZero(b, p) == IF \E i \in p .. Len(b) : b[i] = 0
                  THEN CHOOSE i \in p .. Len(b) : b[i] = 0 /\ \A j \in p .. (i - 1) : b[j] # 0
                  ELSE 0
Drop(b, n) == SubSeq(b, n + 1, Len(b))
Take(b, n) == SubSeq(b, 1, n)
=============================================================================
