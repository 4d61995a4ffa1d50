------------------------------ MODULE MCBitmap ------------------------------
EXTENDS Bitmap, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxBits
Init == \E v \in {0, 1} : BInit(v)
Next == \E b \in {0, 1} : Len(bits) < MaxBits /\ Take(b)
Spec == Init /\ [][Next]_bvars

CountsAll == counted = Count(bits, seen)
Duality == Count(bits, 0) + Count(bits, 1) = Len(bits)
Flip(i) == [bits EXCEPT ![i] = 1 - @]
\* turning a counted bit off never hurts; a larger limit never hurts; the limits that matter are 0..Len-1
MonotoneBits == \A i \in 1..Len(bits), m \in 0..Len(bits) :
  (bits[i] = seen /\ AtMost(bits, seen, m)) => AtMost(Flip(i), seen, m)
MonotoneMax == \A m \in 0..Len(bits) : AtMost(bits, seen, m) => AtMost(bits, seen, m + 1)
Extremes == AtMost(bits, seen, Len(bits)) /\ (AtMost(bits, seen, 0) <=> \A i \in 1..Len(bits) : bits[i] # seen)
\* at most m of one value = at least n - m of the other: the quorum as the paper states it
Quorum == \A m \in 0..Len(bits) : AtMost(bits, seen, m) <=> Count(bits, 1 - seen) >= Len(bits) - m

AllBits(n) == [ 1..n -> {0, 1} ]
GenShort == { [bits |-> b, max |-> m, value |-> v] : b \in UNION { AllBits(n) : n \in 1..4 }, m \in 0..5, v \in {0, 1} }
Clip(S) == { x \in S : x >= 0 }
GenLong == UNION { { [n |-> n, count |-> k, max |-> m, value |-> v] : k \in (Clip({0, 1, n \div 3, n - 1, n}) \cup {x \in {255, 256, 257} : x <= n}),
                       m \in Clip({0, n \div 3 - 1, n \div 3, n - 1, n, n + 1} \cup {x \in {43, 254, 255, 256} : x < n}), v \in {0, 1} }
                   : n \in {7, 8, 9, 16, 33, 64, 100, 150, 200, 255, 256, 257, 300} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(GenShort) \o SetToSeq(GenLong)) ELSE TRUE
=============================================================================
