------------------------------ MODULE EpochData ------------------------------
(* One epoch block inside a circuit.  Numbers are field elements the prover *)
(* chooses; what is hashed and signed is their low bits.  The index must be *)
(* zero (a dummy) or one more than the previous one.                        *)
EXTENDS Integers
CONSTANTS P, W     \* field size, width of the encoded number; 2^W < P

VARIABLES pc, prev, idx, enc
dvars == << pc, prev, idx, enc >>
DInit(Prevs) == pc = "choose" /\ prev \in Prevs /\ idx = 0 /\ enc = 0
Choose(x) == pc = "choose" /\ idx' = x /\ pc' = "check" /\ UNCHANGED << prev, enc >>
Follows(p, x) == x = 0 \/ x = (p + 1) % P
Check == /\ pc = "check"
         /\ pc' = IF Follows(prev, idx) THEN "accepted" ELSE "rejected"
         /\ enc' = idx % (2 ^ W)
         /\ UNCHANGED << prev, idx >>
=============================================================================
