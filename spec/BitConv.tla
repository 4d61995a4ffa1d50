------------------------------- MODULE BitConv -------------------------------
(* Bit/byte conversions between the circuit world (bits, most significant   *)
(* first or least significant first) and the native world (little-endian    *)
(* bytes), defined from the integer they denote.                            *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

Rev(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Pow2 == [ i \in 0..8 |-> 2^i ]
Min(a, b) == IF a < b THEN a ELSE b

\* little-endian bits -> little-endian bytes; the last byte is zero padded
BitLE(bits, k) == IF k <= Len(bits) THEN bits[k] ELSE 0
PackLE(bits) ==
  [ j \in 1..((Len(bits) + 7) \div 8) |->
      LET o == 8 * (j - 1) IN
      BitLE(bits, o+1) + 2 * BitLE(bits, o+2) + 4 * BitLE(bits, o+3) + 8 * BitLE(bits, o+4)
      + 16 * BitLE(bits, o+5) + 32 * BitLE(bits, o+6) + 64 * BitLE(bits, o+7) + 128 * BitLE(bits, o+8) ]
\* little-endian bytes -> their first n little-endian bits (all when there are fewer)
UnpackLE(bytes, n) ==
  [ i \in 1..Min(n, 8 * Len(bytes)) |-> (bytes[((i - 1) \div 8) + 1] \div Pow2[(i - 1) % 8]) % 2 ]

BitsLEtoBytesLE(bits) == PackLE(bits)
BitsBEtoBytesLE(bits) == LET r == TLCEval(Rev(bits)) IN PackLE(r)
BytesLEtoBitsLE(bytes, n) == UnpackLE(bytes, n)
BytesLEtoBitsBE(bytes, n) == Rev(UnpackLE(bytes, n))

\* the integers denoted (small inputs only: TLC integers are 32-bit)
RECURSIVE ValLE(_, _)
ValLE(digits, base) == IF digits = << >> THEN 0 ELSE digits[1] + base * ValLE(Tail(digits), base)
=============================================================================
