---------------------------- MODULE BoweHopwood -----------------------------
(* The Bowe-Hopwood CRH as an integer combination of fixed generators.  The *)
(* message's bits (least significant first) are cut into chunks of three;   *)
(* chunk k of segment s contributes digit * 16^k to generator s, where the  *)
(* digit of bits (b0, b1, b2) is (1 + b0 + 2 b1), negated when b2 is set.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Window,      \* chunks per segment
          Segments     \* number of segments

CapacityBits == 3 * Window * Segments
Bit(msg, i) == IF i \div 8 >= Len(msg) THEN 0 ELSE (msg[i \div 8 + 1] \div (2 ^ (i % 8))) % 2
Digit(b0, b1, b2) == LET d == 1 + b0 + 2 * b1 IN IF b2 = 1 THEN -d ELSE d
NumChunks(msg) == (8 * Len(msg) + 2) \div 3
Digits(msg) == [ c \in 1..NumChunks(msg) |-> Digit(Bit(msg, 3 * c - 3), Bit(msg, 3 * c - 2), Bit(msg, 3 * c - 1)) ]
Fits(msg) == 8 * Len(msg) <= CapacityBits
SegmentOf(c) == (c - 1) \div Window + 1
=============================================================================
