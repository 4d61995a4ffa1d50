------------------------------ MODULE MCPacking ------------------------------
EXTENDS Packing, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxBits, Modulus
ASSUME 2 ^ Capacity <= Modulus
Init == PInit
DoTake(b) == Len(fed) < MaxBits /\ Take(b)
Next == \E b \in {0, 1} : DoTake(b)
Spec == Init /\ [][Next]_pvars
PacksAll == Packed = Pack(fed, Capacity)
InField == \A i \in 1..Len(Packed) : Packed[i] \in 0..(Modulus - 1)
RoundTrip == Unpack(Packed, Len(fed), Capacity) = fed
\* one bit flipped is another packing: with the length fixed, packing loses nothing
Sensitive == \A i \in 1..Len(fed) : Pack([fed EXCEPT ![i] = 1 - @], Capacity) # Packed
\* what a verifier knows: low bits of each element fix the bits, whatever is above them
LowBits == \A i \in 1..Len(Packed) : Len(Cut(fed, i, Capacity)) > 0

\* lengths around every chunk boundary of both fields
Around(c) == UNION { { k * c - 1, k * c, k * c + 1 } : k \in 1..3 } \cup { 1, 2, 8, 256, 384, 512 }
Native == UNION { { [op |-> "native", field |-> f[1], n |-> n, pat |-> p] : n \in Around(f[2]), p \in {"zeros", "ones", "first", "last", "random"} }
                  : f \in { << "fq", 376 >>, << "fr", 252 >> } }
Circ == UNION { UNION { { [op |-> "circ", field |-> f[1], n |-> n, size |-> s, input |-> i, pat |-> p] : n \in {1, s - 1, s, s + 1, 2 * s + 1} \ {0}, p \in {"random", "ones"}, i \in {0, 1} }
                  : s \in {1, 7, 8, 64, f[2] - 1, f[2]} } : f \in { << "fq", 376 >>, << "fr", 252 >> } }
Toy == { [op |-> "toy", p |-> q[1], n |-> n, size |-> s, input |-> i] : q \in { << 11, 3 >>, << 13, 3 >>, << 17, 4 >> }, n \in 1..4, s \in 1..3, i \in {0, 1} }
\* two elements already meet every boundary
SmallToy == { t \in Toy : t.n <= 2 * t.size /\ (t.p = 17 => t.n <= t.size) }
Hash == { [op |-> "h2b", n |-> n, pat |-> p] : n \in 1..3, p \in {"random", "zeros", "ones", "first", "last"} }
Edges == { [op |-> "edges", a |-> a, b |-> b] : a \in {1, 7, 8, 9, 256, 511, 512, 513, 971}, b \in {1, 8, 256, 520, 1725} }
ASSUME IF "GEN" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Native) \o SetToSeq(Circ) \o SetToSeq(SmallToy) \o SetToSeq(Hash) \o SetToSeq(Edges)) ELSE TRUE
=============================================================================
