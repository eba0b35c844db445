------------------------------ MODULE BlfBytes ------------------------------
(***************************************************************************)
(* Byte strings: sequences over 0..255.  TLC integers are 32 bit, so the   *)
(* 8-byte quantities of the format are never turned into integers: they    *)
(* stay little-endian byte strings ("limbs").  4-byte quantities that do   *)
(* not fit saturate to Huge (larger than anything that occurs in a trace). *)
(***************************************************************************)
EXTENDS Integers, Sequences

Huge == 2147483647

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Rep(x, n) == [i \in 1..n |-> x]
Zeros(n) == [i \in 1..n |-> 0]
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

\* n bytes from 0-based offset off, clipped at the end of b
Slice(b, off, n) ==
  IF n <= 0 \/ off >= Len(b) THEN <<>>
  ELSE IF n >= Len(b) - off THEN SubSeq(b, off + 1, Len(b))
  ELSE SubSeq(b, off + 1, off + n)

From(b, off) == IF off >= Len(b) THEN <<>> ELSE SubSeq(b, off + 1, Len(b))

\* does s occur in b at 0-based offset off (completely)?
At(b, off, s) ==
  /\ off + Len(s) <= Len(b)
  /\ \A i \in 1..Len(s) : b[off + i] = s[i]

\* little-endian unsigned integer of w bytes at off (saturating)
LE(b, off, w) ==
  CASE w = 1 -> b[off + 1]
    [] w = 2 -> b[off + 1] + 256 * b[off + 2]
    [] w = 4 -> IF b[off + 4] > 127 THEN Huge
                ELSE b[off + 1] + 256 * b[off + 2] + 65536 * b[off + 3] + 16777216 * b[off + 4]
    [] w = 8 -> IF b[off + 4] > 127 \/ b[off + 5] # 0 \/ b[off + 6] # 0 \/ b[off + 7] # 0 \/ b[off + 8] # 0
                THEN Huge
                ELSE b[off + 1] + 256 * b[off + 2] + 65536 * b[off + 3] + 16777216 * b[off + 4]

\* the w little-endian bytes of natural number n (n < 2^31)
Bytes(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div (256 ^ (i - 1))) % 256 ELSE 0]

\* number of filler bytes that bring n to a multiple of a
PadTo(n, a) == (a - (n % a)) % a

\* b with the bytes s written over the positions from 0-based offset off
Overlay(b, off, s) ==
  [i \in 1..Len(b) |-> IF i > off /\ i <= off + Len(s) THEN s[i - off] ELSE b[i]]

RECURSIVE ConcatOf(_, _, _)
ConcatOf(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET m == (lo + hi) \div 2 IN ConcatOf(ss, lo, m) \o ConcatOf(ss, m + 1, hi)
Concat(ss) == ConcatOf(ss, 1, Len(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
