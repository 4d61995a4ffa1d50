----------------------------- MODULE FieldConst -----------------------------
(* The BLS12-377 base and scalar field moduli (most significant byte first) *)
(* and arithmetic-free comparisons on big-endian bit sequences.             *)
EXTENDS Integers, Sequences

FqBytes == << 1, 174, 58, 70, 23, 197, 16, 234, 198, 59, 5, 192, 108, 161, 73, 59, 26, 34, 217, 243, 0, 245, 19, 143, 30, 243, 98, 47, 186, 9, 72, 0, 23, 11, 93, 68, 48, 0, 0, 0, 133, 8, 192, 0, 0, 0, 0, 1 >>
FrBytes == << 18, 171, 101, 94, 154, 44, 165, 86, 96, 180, 77, 30, 92, 55, 176, 1, 89, 170, 118, 254, 208, 0, 0, 1, 10, 17, 128, 0, 0, 0, 0, 1 >>
\* the low n bits of big-endian bytes, most significant first
BitsBE(bytes, n) ==
  LET m == 8 * Len(bytes) IN
  [ i \in 1..n |-> LET k == m - n + i - 1 IN (bytes[(k \div 8) + 1] \div (2 ^ (7 - (k % 8)))) % 2 ]
FqModulus == BitsBE(FqBytes, 377)
FrModulus == BitsBE(FrBytes, 253)
\* (p - 1) / 2: p is odd, so its bits shifted down by one
HalfOf(p) == [ i \in 1..Len(p) |-> IF i = 1 THEN 0 ELSE p[i - 1] ]
FqHalf == HalfOf(FqModulus)
FrHalf == HalfOf(FrModulus)

RECURSIVE GreaterFrom(_, _, _)
GreaterFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GreaterFrom(a, b, i + 1)
Greater(a, b) == GreaterFrom(a, b, 1)
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
=============================================================================
