------------------------------- MODULE MCYBit -------------------------------
(* The sign bit tells a point from its negation; the gadget's normalisation *)
(* argument as a state machine over toy fields: a prover claims a bit, the  *)
(* verifier checks that the adjusted element is at most half.               *)
EXTENDS YBit, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANT Primes
VARIABLES p, c0, c1, claim, verdict
vars == <<p, c0, c1, claim, verdict>>
Init == p \in Primes /\ c0 \in 0..(p - 1) /\ c1 \in 0..(p - 1) /\ claim = 2 /\ verdict = "none"
Claim(b) == claim = 2 /\ claim' = b /\ UNCHANGED <<p, c0, c1, verdict>>
\* adjusted = c1 - bit * half, checked to be at most half
Check == /\ claim # 2 /\ verdict = "none"
         /\ verdict' = IF ((c1 - (claim * Half(p))) + p) % p <= Half(p) THEN "ok" ELSE "no"
         /\ UNCHANGED <<p, c0, c1, claim>>
Next == (\E b \in {0, 1} : Claim(b)) \/ Check
Spec == Init /\ [][Next]_vars
\* exactly one of a nonzero value and its negation is over half
Antisymmetric == /\ c1 # 0 => Over(c1, p) + Over(Neg(c1, p), p) = 1
                 /\ (c0 # 0 \/ c1 # 0) => Over2(c0, c1, p) + Over2(Neg(c0, p), Neg(c1, p), p) = 1
\* the true bit is always accepted
Complete == (verdict = "no") => claim # Over(c1, p)
\* a false one only at exactly half: the ambiguity recorded as a finding
SoundButForHalf == (verdict = "ok" /\ claim # Over(c1, p)) => c1 = Half(p) /\ claim = 1

Classes == {"zero", "one", "two", "half-2", "half-1", "half", "half+1", "half+2", "-1", "-2", "rand1", "rand2", "rand3"}
Kinds == {"witness", "input", "const", "lc"}
Gen == { [gadget |-> g, kind |-> k, c0 |-> a, c1 |-> "" ] : g \in {"normalize", "is_eq_zero"}, k \in Kinds, a \in Classes }
  \cup { [gadget |-> "g1", kind |-> k, c0 |-> a, c1 |-> "" ] : k \in Kinds \ {"const"}, a \in Classes }
  \cup { [gadget |-> "g2", kind |-> k, c0 |-> a, c1 |-> b ] : k \in Kinds \ {"const"}, a \in Classes, b \in Classes }
  \cup { [gadget |-> "point", kind |-> "point", c0 |-> s, c1 |-> n] : s \in {"pos", "neg"}, n \in {"1", "2", "3", "4", "5", "6", "7", "8"} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
