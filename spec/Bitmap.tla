------------------------------- MODULE Bitmap -------------------------------
(* The quorum gadget: a bitmap is admissible for a limit iff at most that   *)
(* many of its bits equal the counted value.                                *)
EXTENDS Integers, Sequences, FiniteSets

Matches(bits, value) == { i \in 1..Len(bits) : bits[i] = value }
Count(bits, value) == Cardinality(Matches(bits, value))
AtMost(bits, value, max) == Count(bits, value) <= max

VARIABLES bits, counted, seen
bvars == <<bits, counted, seen>>
BInit(value) == bits = << >> /\ counted = 0 /\ seen = value
Take(b) == /\ bits' = Append(bits, b)
           /\ counted' = counted + (IF b = seen THEN 1 ELSE 0)
           /\ UNCHANGED seen
=============================================================================
