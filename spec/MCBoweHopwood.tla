--------------------------- MODULE MCBoweHopwood ----------------------------
(* All short messages against a small window, and the messages replayed     *)
(* into the real hasher, with their digits.                                 *)
EXTENDS BoweHopwood, TLC, Json, IOUtils, SequencesExt
VARIABLES msg, dig, st
vars == << msg, dig, st >>
Bytes == {0, 1, 2, 4, 5, 7, 8, 64, 127, 128, 129, 200, 255}
Init == msg = << >> /\ dig = << >> /\ st = "feed"
Feed == st = "feed" /\ Len(msg) < 4 /\ \E b \in Bytes : msg' = Append(msg, b) /\ UNCHANGED << dig, st >>
Hash == st = "feed" /\ Fits(msg) /\ dig' = Digits(msg) /\ st' = "hashed" /\ UNCHANGED msg
Refuse == st = "feed" /\ ~Fits(msg) /\ st' = "refused" /\ UNCHANGED << msg, dig >>
Next == Feed \/ Hash \/ Refuse
Spec == Init /\ [][Next]_vars
\* the digits determine the bits, so messages of one length have distinct digit strings
Undo(d) == LET a == IF d < 0 THEN -d ELSE d IN << (a - 1) % 2, (a - 1) \div 2, IF d < 0 THEN 1 ELSE 0 >>
Injective == st = "hashed" =>
  \A i \in 0..(8 * Len(msg) - 1) : Bit(msg, i) = Undo(dig[i \div 3 + 1])[(i % 3) + 1]
InRange == st = "hashed" => \A c \in 1..Len(dig) : dig[c] \in {-4, -3, -2, -1, 1, 2, 3, 4} /\ SegmentOf(c) <= Segments
OnlyTooLongRefused == st = "refused" => 8 * Len(msg) > CapacityBits

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Pat(n, k) == [ i \in 1..n |-> (k * 37 + Seed * 11 + 7 * i + (((i % 263) * (i % 263) * (2 * k + 1)) % 269)) % 256 ]
Lens == (0..40) \cup {48, 52, 63, 64, 69, 70, 71, 96, 100, 104, 105, 128, 139, 140, 200, 255, 256, 500, 1000, 3487, 9765}
Msgs == { Pat(n, k) : n \in Lens, k \in {1, 2} } \cup { [ i \in 1..n |-> b ] : n \in {1, 2, 3, 34, 35, 36}, b \in {0, 255} }
        \cup { Pat(n, 3) : n \in {19528, 19529, 19530} }
Gen == { [ msg |-> m, digits |-> (IF Len(m) * 8 <= 93 * 560 * 3
             THEN [ c \in 1..NumChunks(m) |-> Digit(Bit(m, 3 * c - 3), Bit(m, 3 * c - 2), Bit(m, 3 * c - 1)) ] ELSE << >>) ] : m \in Msgs }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
