----------------------------- MODULE MCBlsGadget -----------------------------
EXTENDS BlsGadget, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxN
Ks == -1..2
SeqsN(S, n) == [ 1..n -> S ]
Init == \E n \in 0..MaxN : \E ks \in SeqsN(Ks, n), bs \in SeqsN({0, 1}, n), p \in {1, 7} : BgInit(ks, bs, p)
Spec == Init /\ [][BgNext]_bvars
Done == pc = "walked"
Computes == Done => agg = Agg(keys, bits) /\ absent = Zeros(bits) /\ refused = ~NoPad(keys, bits, pad)
\* a quorum: with every validator honest-or-absent, an accepted set covers all but `max' of them
Quorum == Done => \A m \in 0..MaxN : BitmapOk(keys, bits, pad, m) => Cardinality({ k \in 1..Len(keys) : bits[k] = 1 }) >= Len(keys) - m
\* no padding validator is ever part of an accepted aggregate
NoPadding == Done => \A m \in 0..MaxN : BitmapOk(keys, bits, pad, m) => \A k \in 1..Len(keys) : ~(bits[k] = 1 /\ keys[k] = pad)
\* the accepted signature is unique
Unique == Done => \A s1, s2 \in -6..6 : (VerifyOk(keys, bits, pad, MaxN, 3, s1) /\ VerifyOk(keys, bits, pad, MaxN, 3, s2)) => s1 = s2

\* scripts
Kinds == << "witness", "input", "mixed", "scaled" >>
KindOf(x) == Kinds[(x % 4) + 1]
Code(ks, bs) == LET RECURSIVE C(_) C(k) == IF k = 0 THEN 0 ELSE 3 * C(k - 1) + 2 * ks[k] + bs[k] + 4 IN C(Len(ks))
V(n, ks, bs, p, m, d) == [ op |-> "verify", keys |-> ks, bits |-> bs, pad |-> p, max |-> m, h |-> 3,
                           sig |-> IF 3 * Agg(ks, bs) + d = 0 THEN 9 ELSE 3 * Agg(ks, bs) + d,
                           kind |-> KindOf(Code(ks, bs) + m + d), forge |-> 0 ]
GenVerify == UNION { { V(n, ks, bs, p, m, d) : ks \in SeqsN(Ks, n), bs \in SeqsN({0, 1}, n), p \in {1, 7}, m \in 0..n, d \in {0, 1} } : n \in 1..2 }
        \cup { V(3, ks, bs, p, m, d) : ks \in SeqsN({-1, 1, 2}, 3), bs \in SeqsN({0, 1}, 3), p \in {2}, m \in 0..2, d \in {0, -2} }
Big(n, f) == [ k \in 1..n |-> f + k ]
ZerosAt(n, S) == [ k \in 1..n |-> IF k \in S THEN 0 ELSE 1 ]
GenBig == { V(n, Big(n, f), ZerosAt(n, S), p, m, d) : n \in {5, 9, 16}, f \in {0, -3}, S \in {{}, {1}, {5}, {1, 3}, {2, 3, 4}}, p \in {1, 50}, m \in {0, 1, 2, 3}, d \in {0, 3} }
GenAgg == UNION { { [op |-> o, keys |-> ks, bits |-> bs, pad |-> p, max |-> m, h |-> 2, kind |-> KindOf(Code(ks, bs) + m), forge |-> 0 ] :
                     o \in {"agg", "bitmap"}, ks \in SeqsN(Ks, n), bs \in SeqsN({0, 1}, n), p \in {0, 1}, m \in {0, 1} } : n \in 1..3 }
GenAll == UNION { { [op |-> "all", keys |-> ks, kind |-> KindOf(Code(ks, ks)), forge |-> 0 ] : ks \in SeqsN(Ks, n) } : n \in 1..4 }
GenBatch == UNION { { [op |-> o, keys |-> ks, hs |-> hs, sig |-> IF Dot(ks, hs, n) + d = 0 THEN 11 ELSE Dot(ks, hs, n) + d,
                       kind |-> KindOf(Code(ks, hs) + d), forge |-> 0 ] :
                     o \in {"batch", "batchprep"}, ks \in SeqsN(Ks, n), hs \in SeqsN({1, 2}, n), d \in {0, 1} } : n \in 1..3 }
\* exchanged signatures and keys: sums that agree although the pairs do not
GenForge == { [V(3, ks, bs, 9, m, d) EXCEPT !.forge = 1, !.kind = k] : ks \in {<<1, 2, 3>>, <<2, -1, 9>>}, bs \in {<<1, 0, 1>>, <<1, 1, 1>>, <<1, 1, 0>>}, m \in {0, 1}, d \in {0, 1}, k \in {"witness", "scaled"} }
       \cup { [op |-> o, keys |-> ks, bits |-> bs, pad |-> 2, max |-> 1, h |-> 2, kind |-> k, forge |-> 1 ] :
               o \in {"agg", "bitmap"}, ks \in {<<1, 3>>, <<1, 2, 0>>}, bs \in {<<1, 0, 1>>, <<1, 1, 1>>}, k \in {"witness", "input"} }
       \cup { [op |-> "all", keys |-> <<1, 2, -3>>, kind |-> "witness", forge |-> 1 ], [op |-> "all", keys |-> <<5, 2, 3, 4>>, kind |-> "scaled", forge |-> 1 ] }
       \cup { [op |-> o, keys |-> <<1, 2, 3>>, hs |-> <<2, 1, 4>>, sig |-> s, kind |-> "witness", forge |-> 1 ] : o \in {"batch", "batchprep"}, s \in {16, 17} }
Gen == GenVerify \cup GenBig \cup GenAgg \cup GenAll \cup GenBatch
Same(x) == "bits" \in DOMAIN x => Len(x.bits) = Len(x.keys)
ASSUME IF "GEN" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(GenVerify) \o SetToSeq(GenBig) \o SetToSeq(GenAgg) \o SetToSeq(GenAll) \o SetToSeq(GenBatch) \o SelectSeq(SetToSeq(GenForge), Same)) ELSE TRUE
=============================================================================
