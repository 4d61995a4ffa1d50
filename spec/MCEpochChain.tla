----------------------------- MODULE MCEpochChain -----------------------------
EXTENDS EpochChain, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxLen
B(i, ee, pe, m, ks) == [ index |-> i, round |-> 0, ee |-> ee, pe |-> pe, mns |-> m, keys |-> ks ]
U(b, bits) == [ b |-> b, bits |-> bits ]
Bits2 == [ 1..2 -> {0, 1} ]
\* three small worlds: indices, entropies, quora
Indices == { U(B(i, 0, 0, 1, << 2, 3 >>), << 1, 1 >>) : i \in 0..3 }
Entropies == { U(B(i, ee, pe, 1, << 2, 3 >>), << 1, 1 >>) : i \in {0, 1, 2, 3}, ee \in {0, 1, 2}, pe \in {0, 1, 2} }
Quora == { U(B(i, 0, 0, m, ks), bs) : i \in {0, 1, 2, 3}, m \in {0, 1}, ks \in { << 2, 3 >>, << 3, 1 >>, << 2, -2 >> }, bs \in Bits2 }
Seqs(S, n) == UNION { [ 1..k -> S ] : k \in 0..n }
Wrong(s) == { s, [s EXCEPT !.gen = @ + 1], [s EXCEPT !.junk = 1] }
Start(f, ups) == \E s \in Wrong(HonestSig(f, ups)) : CInit(f, ups, s)
Init == \/ \E f \in { B(i, 0, 0, 1, << 2, 5 >>) : i \in {0, 1, 2} }, ups \in Seqs(Indices, MaxLen + 1) : Start(f, ups)
        \/ \E f \in { B(0, ee, 0, 1, << 2, 5 >>) : ee \in {0, 1, ZeroEntropy} }, ups \in Seqs(Entropies, MaxLen - 1) : Start(f, ups)
        \/ \E f \in { B(0, 0, 0, m, ks) : m \in {0, 1}, ks \in { << 2, 5 >>, << 2, 1 >> } }, ups \in Seqs(Quora, MaxLen - 1) : Start(f, ups)
Spec == Init /\ [][CNext]_cvars

Done == pc \in { "accepted", "rejected" }
Accepted == pc = "accepted"
Reals == SelectSeq(chain, LAMBDA u : ~Dummy(u))
Before(k) == IF k = 1 THEN first ELSE Reals[k - 1].b
\* the step machine and its closed form agree
Agrees == Done => (Accepted <=> Accept(first, chain, sig))
\* every index between the first and the last block is there, once
Lineage == Accepted => \A k \in 1..Len(Reals) : Reals[k].b.index = first.index + k
\* every block was signed by all but the allowed number of its predecessor's validators, none of them padding
Ones(bs) == Cardinality({ k \in 1..Len(bs) : bs[k] = 1 })
QuorumSigned == Accepted => \A k \in 1..Len(Reals) :
  /\ Ones(Reals[k].bits) >= Len(Before(k).keys) - Before(k).mns
  /\ \A v \in 1..Len(Before(k).keys) : Reals[k].bits[v] = 1 => Before(k).keys[v] # PadKey
\* blocks name their predecessor's entropy, once the first block has one
EntropyLinked == (Accepted /\ Val(first.ee) # 0) => \A k \in 1..Len(Reals) : Val(Reals[k].b.pe) = Val(Before(k).ee)
\* dummies prove nothing and lend nothing: without them the chain is accepted just the same
NoDummies == Accepted => /\ Len(Reals) > 0 /\ Reals[Len(Reals)].b = chain[Len(chain)].b
                         /\ Accept(first, Reals, HonestSig(first, Reals))
\* only what was signed is accepted
Signed == Accepted => sig = HonestSig(first, chain)
\* and what is honestly signed and in order is
Complete == (Done /\ Reals = chain /\ Len(chain) > 0 /\ sig = HonestSig(first, chain)
             /\ (\A k \in 1..Len(chain) : LET p == Before(k) u == chain[k] IN
                   /\ u.b.index = p.index + 1 /\ (Val(first.ee) = 0 \/ Val(u.b.pe) = Val(p.ee))
                   /\ Ones(u.bits) >= Len(p.keys) - p.mns /\ BG!NoPad(p.keys, u.bits, PadKey) /\ BG!Agg(p.keys, u.bits) # 0)
             /\ BG!All(chain[Len(chain)].b.keys) # 0) => Accepted

\* ---- scripts --------------------------------------------------------------------------------
\* a block: [index, round, ee, pe, mns, keys]
Blk(i, ee, pe, m, ks) == [ index |-> i, round |-> (i * 7) % 256, ee |-> ee, pe |-> pe, mns |-> m, keys |-> ks ]
Bases ==
  << [ first |-> Blk(4, 3, 2, 1, << 2, 5 >>), ups |-> << U(Blk(5, 4, 3, 1, << 3, 7 >>), << 1, 1 >>), U(Blk(6, 5, 4, 0, << 4, -3 >>), << 1, 0 >>) >> ],
     [ first |-> Blk(0, 0, 0, 1, << 2, 5, -4 >>), ups |-> << U(Blk(1, 1, 2, 2, << 3, 7, 2 >>), << 1, 0, 1 >>), U(Blk(2, 3, 4, 0, << 2, 2, 5 >>), << 0, 1, 0 >>) >> ],
     [ first |-> Blk(65533, 6, 0, 0, << 2 >>), ups |-> << U(Blk(65534, 7, 6, 0, << 3 >>), << 1 >>), U(Blk(65535, 8, 7, 0, << 5 >>), << 1 >>) >> ],
     [ first |-> Blk(300, 3, 2, 1, << 2, 1 >>), ups |-> << U(Blk(301, 0, 3, 1, << 3, 1 >>), << 1, 0 >>), U(Blk(302, 5, 0, 0, << 4, 5 >>), << 1, 0 >>), U(Blk(303, 5, 5, 0, << 4, 6 >>), << 1, 1 >>) >> ] >>
Fake(n, bits) == U([ index |-> 0, round |-> 0, ee |-> ZeroEntropy, pe |-> ZeroEntropy, mns |-> 0, keys |-> [ k \in 1..n |-> PadKey ] ], bits)
\* a dummy with contents of its own
Odd(n, bits) == U([ index |-> 0, round |-> 3, ee |-> 6, pe |-> 5, mns |-> 2, keys |-> [ k \in 1..n |-> 8 + k ] ], bits)
N(c) == Len(c.first.keys)
BitsOf(c) == [ 1..N(c) -> {0, 1} ]
AllOnes(c) == [ k \in 1..N(c) |-> 1 ]
SetUp(c, k, u) == [ c EXCEPT !.ups[k] = u ]
Ins(c, k, u) == [ c EXCEPT !.ups = SubSeq(@, 1, k) \o << u >> \o SubSeq(@, k + 1, Len(@)) ]
Pos(c) == 1..Len(c.ups)
MutIndex(c) == UNION { { [ c EXCEPT !.ups[k].b.index = x ] : x \in { 0, 1, (c.ups[k].b.index + 65535) % 65536, (c.ups[k].b.index + 1) % 65536, c.first.index, 65535 } } : k \in Pos(c) }
            \cup { [ c EXCEPT !.first.index = x ] : x \in { 0, (c.first.index + 1) % 65536, 65535 } }
Ents == { 0, ZeroEntropy, 3, 4, 6 }
MutEnt(c) == UNION { { [ c EXCEPT !.ups[k].b.pe = x ] : x \in Ents } \cup { [ c EXCEPT !.ups[k].b.ee = x ] : x \in Ents } : k \in Pos(c) }
          \cup { [ c EXCEPT !.first.ee = x ] : x \in Ents } \cup { [ c EXCEPT !.first.pe = x ] : x \in { 0, 3 } }
MutMns(c) == UNION { { [ c EXCEPT !.ups[k].b.mns = x ] : x \in 0..2 } : k \in Pos(c) } \cup { [ c EXCEPT !.first.mns = x ] : x \in 0..3 }
MutBits(c) == UNION { { [ c EXCEPT !.ups[k].bits = x ] : x \in BitsOf(c) } : k \in Pos(c) }
KeyChoices == { PadKey, 2, -3, -7 }
MutKeys(c) == UNION { UNION { { [ c EXCEPT !.ups[k].b.keys[v] = x ] : x \in KeyChoices } : v \in 1..N(c) } : k \in Pos(c) }
           \cup UNION { { [ c EXCEPT !.first.keys[v] = x ] : x \in KeyChoices } : v \in 1..N(c) }
MutDummy(c) == UNION { { Ins(c, k, Fake(N(c), AllOnes(c))), Ins(c, k, Odd(N(c), AllOnes(c))), Ins(Ins(c, k, Fake(N(c), AllOnes(c))), k, Odd(N(c), AllOnes(c))) } : k \in 0..Len(c.ups) }
            \cup { Ins(c, k, Odd(N(c), bs)) : k \in {1, Len(c.ups) - 1}, bs \in BitsOf(c) }
MutOrder(c) == { [ c EXCEPT !.ups = << c.ups[2], c.ups[1] >> \o SubSeq(c.ups, 3, Len(c.ups)) ], [ c EXCEPT !.ups = SubSeq(@, 1, 1) ], [ c EXCEPT !.ups = Tail(@) ], [ c EXCEPT !.ups = << >> ],
                 [ c EXCEPT !.ups = @ \o << @[Len(@)] >> ], [ c EXCEPT !.first = c.ups[1].b, !.ups = Tail(@) ] }
Chains(c) == { c } \cup MutIndex(c) \cup MutEnt(c) \cup MutMns(c) \cup MutBits(c) \cup MutKeys(c) \cup MutDummy(c) \cup MutOrder(c)
\* the signature the chain demands, or the one the unaltered chain would have
WithSig(c, s) == c @@ [ sig |-> s, op |-> "chain", forge |-> 0 ]
Sound(s) == s.gen # 0 \/ s.junk # 0 \/ \E k \in 1..Len(s.coef) : s.coef[k] # 0
Sigs(c) == LET h == HonestSig(c.first, c.ups) IN
  { h, [ h EXCEPT !.gen = @ + 1 ], [ h EXCEPT !.junk = 1 ] } \cup { [ h EXCEPT !.coef[k] = @ + d ] : k \in 1..Len(h.coef), d \in { 1, -1 } }
  \cup (IF Len(h.coef) > 1 THEN { [ h EXCEPT !.coef[1] = h.coef[2], !.coef[2] = h.coef[1] ] } ELSE {})
MutSig(c) == { WithSig(d, s) : d \in { c, Ins(c, 1, Fake(N(c), AllOnes(c))) }, s \in Sigs(c) \cup Sigs(Ins(c, 1, Fake(N(c), AllOnes(c)))) }
Fits(x) == Len(x.sig.coef) = Len(x.ups) /\ Sound(x.sig)
GenSet == { x \in UNION { { WithSig(d, HonestSig(d.first, d.ups)) : d \in Chains(Bases[b]) } \cup MutSig(Bases[b]) : b \in 1..Len(Bases) } : Fits(x) }
\* pairs of alterations
Mut2(c) == UNION { MutDummy(d) : d \in MutBits(c) } \cup UNION { MutMns(d) : d \in MutBits(c) } \cup UNION { MutEnt(d) : d \in MutDummy(c) } \cup UNION { MutIndex(d) : d \in MutDummy(c) } \cup UNION { MutKeys(d) : d \in MutBits(c) }
Gen2 == { x \in { WithSig(d, HonestSig(d.first, d.ups)) : d \in Mut2(Bases[1]) \cup Mut2(Bases[2]) \cup Mut2(Bases[4]) } : Fits(x) }
GenForge == { [ WithSig(c, HonestSig(c.first, c.ups)) EXCEPT !.forge = 1 ] : c \in { Bases[1], Bases[4], Ins(Bases[2], 1, Fake(3, << 1, 1, 0 >>)),
                Ins(Bases[1], 1, Fake(2, << 1, 1 >>)), [ Bases[1] EXCEPT !.ups[1].b.pe = 7 ], [ Bases[1] EXCEPT !.ups[2].b.index = 9 ], [ Bases[1] EXCEPT !.first.mns = 0, !.ups[1].bits = << 1, 0 >> ] } }
Pairs == atoi(IOEnv.PAIRS)
ASSUME IF "GEN" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(GenSet) \o (LET s == SetToSeq(Gen2) IN [ k \in 1..Pairs |-> s[((k * 7919) % Len(s)) + 1] ]) \o SetToSeq(GenForge)) ELSE TRUE
=============================================================================
