-------------------------------- MODULE Codec --------------------------------
(* The wire format of keys and signatures, byte by byte.  A coordinate is a  *)
(* little-endian byte string of a reduced field element; the two top bits of *)
(* the last byte of a compressed point are flags: 64 = point at infinity,    *)
(* 128 = y is the larger of the two square roots.  What only algebra can     *)
(* tell (is there a point with this x, is it in the prime-order subgroup) is *)
(* an input, "facts".                                                        *)
EXTENDS Integers, Sequences
CONSTANTS P,        \* the modulus of the base field, little-endian bytes
          Half,     \* (P - 1) / 2
          R         \* the modulus of the scalar field
NB == Len(P)

RECURSIVE LessLE(_, _, _)
LessLE(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessLE(a, b, i - 1)
Less(a, b) == LessLE(a, b, Len(a))
Zero(n) == [ i \in 1..n |-> 0 ]
IsZero(a) == a = Zero(Len(a))
Chunks(a) == [ i \in 1..(Len(a) \div NB) |-> SubSeq(a, (i - 1) * NB + 1, i * NB) ]
Reduced(a) == \A i \in 1..(Len(a) \div NB) : Less(Chunks(a)[i], P)

\* y > -y; extension field elements are ordered by their last component first
Positive(y) == LET c == Chunks(y) n == Len(c) IN
  IF n = 1 THEN Less(Half, c[1])
  ELSE IF IsZero(c[2]) THEN Less(Half, c[1]) ELSE Less(Half, c[2])

Flags(b) == b[Len(b)] \div 64          \* 0 negative y, 1 infinity, 2 positive y, 3 invalid
Strip(b) == [ b EXCEPT ![Len(b)] = @ % 64 ]
WithFlags(b, f) == [ b EXCEPT ![Len(b)] = @ + 64 * f ]
Take(b, n) == SubSeq(b, 1, n)

Err == [st |-> "err"]
Inf == [st |-> "inf"]

-----------------------------------------------------------------------------
\* points; n is the length of one coordinate
EncodePoint(pt, n, compressed) ==
  IF compressed THEN IF pt.st = "inf" THEN WithFlags(Zero(n), 1)
                     ELSE WithFlags(pt.x, IF Positive(pt.y) THEN 2 ELSE 0)
  ELSE IF pt.st = "inf" THEN WithFlags(pt.x \o pt.y, 1) ELSE pt.x \o pt.y

\* what decoding may answer; facts.exists/insub are about the encoded x (compressed) or (x, y)
DecodeOk(b, n, compressed, facts, out) ==
  LET want == IF compressed THEN n ELSE 2 * n IN
  IF Len(b) < want THEN out = Err
  ELSE LET d == Take(b, want) s == Strip(d) f == Flags(d) IN
    IF compressed THEN
      IF f = 3 \/ ~Reduced(s) THEN out = Err
      ELSE IF f = 1 THEN out = Inf
      ELSE IF ~facts.exists \/ ~facts.insub THEN out = Err
      ELSE out.st = "pt" /\ out.x = s /\ out.oncurve /\ (Positive(out.y) <=> f = 2)
    ELSE
      IF f = 3 \/ ~Reduced(Take(s, n)) \/ ~Reduced(SubSeq(s, n + 1, 2 * n)) THEN out = Err
      ELSE IF f = 1 THEN out = Inf
      ELSE IF ~facts.insub THEN out = Err
      ELSE facts.exists => (out.st = "pt" /\ out.x = Take(s, n) /\ out.y = SubSeq(s, n + 1, 2 * n))

\* secret keys: a reduced scalar, no flags
EncodeScalar(v) == v
DecodeScalarOk(b, out) ==
  IF Len(b) < Len(R) THEN out = Err
  ELSE IF Less(Take(b, Len(R)), R) THEN out.st = "pt" /\ out.x = Take(b, Len(R)) ELSE out = Err
=============================================================================
