----------------------------- MODULE MCEpochData -----------------------------
EXTENDS EpochData, Sequences, TLC, Json, IOUtils, SequencesExt
Init == DInit(0..(P - 1))
Next == (\E x \in 0..(P - 1) : Choose(x)) \/ Check
Spec == Init /\ [][Next]_dvars
Fits(x) == x < 2 ^ W
\* with numbers that fit, the encoded index is a dummy's or the successor of the previous one
Successor == (pc = "accepted" /\ Fits(prev) /\ Fits(idx)) => enc = 0 \/ enc = prev + 1
\* and a block cannot be taken for a dummy
NoFalseDummy == (pc = "accepted" /\ Fits(idx)) => ((enc = 0) <=> (idx = 0))
\* the finding: nothing makes the numbers fit, which both invariants need
Overflow == \E p, x \in 0..(P - 1) : Follows(p, x) /\ Fits(p) /\ x # 0 /\ x % (2 ^ W) = 0
ASSUME Overflow

Base == [op |-> "data", round |-> 3, mns |-> "1", ee |-> "rand", pe |-> "rand", maxv |-> 0, keys |-> "rand"]
Nums == { << 0, 0, "0" >>, << 1, 255, "1" >>, << 255, 128, "255" >>, << 256, 1, "65536" >>, << 65535, 254, "4294967295" >> }
Ents == { << "none", "none" >>, << "rand", "none" >>, << "none", "rand" >>, << "ones", "zero" >>, << "one", "rand" >>, << "rand", "ones" >> }
GenBits == { [Base EXCEPT !.round = t[2], !.mns = t[3], !.ee = e[1], !.pe = e[2], !.keys = k] @@ [ index |-> t[1], n |-> n, forge |-> 0, hash |-> 0 ] :
               t \in Nums, e \in Ents, n \in {1, 2, 5}, k \in { "rand", "negated", "generator", "projective" } }
GenHash == { Base @@ [ index |-> i, prev |-> p, n |-> n, forge |-> 0, hash |-> h ] :
               << i, p >> \in { << 0, 0 >>, << 0, 7 >>, << 1, 0 >>, << 5, 4 >>, << 5, 5 >>, << 5, 6 >>, << 5, 3 >>, << 5, 0 >>, << 65535, 65534 >>, << 1, 65535 >>, << 0, 65535 >> },
               n \in { 1, 3 }, h \in { 1, 2 } }
GenForge == { [Base EXCEPT !.keys = k, !.mns = m] @@ [ index |-> i, prev |-> p, n |-> n, forge |-> 1, hash |-> 0 ] :
               << i, p >> \in { << 5, 4 >>, << 0, 9 >>, << 7, 4 >>, << 5, 5 >> }, n \in { 1, 2 }, k \in { "rand", "negated" }, m \in { "0", "2" } }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(GenBits) \o SetToSeq(GenHash) \o SetToSeq(GenForge)) ELSE TRUE
=============================================================================
