------------------------------ MODULE MCBitConv ------------------------------
(* The conversion session: bits are fed one at a time, and the conversions  *)
(* of every prefix keep their algebraic relations.  Also the script source. *)
EXTENDS BitConv, TLC, Json, IOUtils, SequencesExt, FiniteSets

CONSTANT MaxBits
VARIABLE bits
Init == bits = << >>
Feed(b) == Len(bits) < MaxBits /\ bits' = Append(bits, b)
Next == \E b \in {0, 1} : Feed(b)
Spec == Init /\ [][Next]_bits

ByteRange == LET y == PackLE(bits) IN \A j \in 1..Len(y) : y[j] \in 0..255
SizeRule == Len(PackLE(bits)) * 8 \in Len(bits)..(Len(bits) + 7)
RoundTripLE == BytesLEtoBitsLE(BitsLEtoBytesLE(bits), Len(bits)) = bits
RoundTripBE == BytesLEtoBitsBE(BitsBEtoBytesLE(bits), Len(bits)) = bits
SameNumber == /\ ValLE(BitsLEtoBytesLE(bits), 256) = ValLE(bits, 2)
              /\ ValLE(BitsBEtoBytesLE(bits), 256) = ValLE(Rev(bits), 2)
TakeTruncates == \A n \in 0..(Len(bits) + 9) :
  ValLE(BytesLEtoBitsLE(PackLE(bits), n), 2) = ValLE(bits, 2) % (2^n)

AllBits(n) == [ 1..n -> {0, 1} ]
GenBits == UNION { AllBits(n) : n \in 0..9 }
GenBytes == { << >> } \cup { <<a>> : a \in {0, 1, 2, 127, 128, 165, 254, 255} }
            \cup { <<a, b>> : a \in {0, 1, 128, 200, 255}, b \in {0, 1, 128, 90} }
            \cup { <<3, 0, 129>>, <<255, 255, 255>>, <<0, 0, 1>>, <<17, 34, 68, 136>> }
Gen == { [op |-> o, in |-> b, take |-> 0] : o \in {"be2le", "le2le"}, b \in GenBits }
   \cup { [op |-> o, in |-> y, take |-> n] : o \in {"b2be", "b2le"}, y \in GenBytes, n \in {0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 40} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
