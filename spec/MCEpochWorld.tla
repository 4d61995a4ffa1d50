----------------------------- MODULE MCEpochWorld -----------------------------
(* What accepted chains are worth: validators sign blocks, honest ones at   *)
(* most one per index; whoever assembles chains may use any signature.      *)
(* From one first block, no two accepted chains disagree on any block.      *)
EXTENDS EpochChain, TLC, FiniteSets
CONSTANTS NV, Faulty, Mns, Depth
Keys == [ v \in 1..NV |-> v + 1 ]
Block(i, alt) == [ index |-> i, round |-> 0, ee |-> alt, pe |-> 0, mns |-> Mns, keys |-> Keys ]
Alts == 1..2
Genesis == [ index |-> 0, round |-> 0, ee |-> 0, pe |-> 0, mns |-> Mns, keys |-> Keys ]
VARIABLE signed     \* index -> alternative -> who
WInit == /\ pc = "world" /\ st = 0 /\ eb = 0 /\ chain = << >> /\ at = 0 /\ sig = 0 /\ coefs = << >> /\ dummies = 0 /\ ok = TRUE /\ first = Genesis
         /\ signed = [ i \in 1..Depth |-> [ a \in Alts |-> {} ] ]
Sign(v, i, a) == /\ v \notin signed[i][a]
                 /\ v > Faulty => \A o \in Alts : v \notin signed[i][o]
                 /\ signed' = [ signed EXCEPT ![i][a] = @ \cup {v} ]
                 /\ UNCHANGED cvars
WNext == \E v \in 1..NV, i \in 1..Depth, a \in Alts : Sign(v, i, a)
WSpec == WInit /\ [][WNext]_<< cvars, signed >>
\* the best bitmap a prover can show for a block
Bits(i, a) == [ v \in 1..NV |-> IF v \in signed[i][a] THEN 1 ELSE 0 ]
Path(alts) == [ i \in 1..Len(alts) |-> [ b |-> Block(i, alts[i]), bits |-> Bits(i, alts[i]) ] ]
Acceptable(alts) == LET p == Path(alts) IN Accept(Genesis, p, HonestSig(Genesis, p))
Paths == UNION { [ 1..d -> Alts ] : d \in 1..Depth }
NoFork == \A p, q \in Paths : (Acceptable(p) /\ Acceptable(q)) => \A i \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) : p[i] = q[i]
\* and the bound is tight: one faulty validator more and they do
Forked == ~NoFork
=============================================================================
