------------------------------- MODULE MCSnark -------------------------------
EXTENDS Snark, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxTransitions
VARIABLES setups, made, verdict
vars == << setups, made, verdict >>
B(i, ee, pe, m, ks) == [ index |-> i, round |-> 0, ee |-> ee, pe |-> pe, mns |-> m, keys |-> ks, maxv |-> Len(ks) ]
U(b, bits) == [ b |-> b, bits |-> bits ]
Firsts == { B(0, 0, 0, m, ks) : m \in {0, 1}, ks \in { << 2, 5 >>, << 2, PadKey >> } } \cup { B(0, 1, 0, 1, << 2, 5 >>) }
Ups == { U(B(i, 0, pe, m, ks), bs) : i \in {0, 1, 2}, pe \in {0, 1}, m \in {0, 1}, ks \in { << 2, 3 >>, << 3, PadKey >> }, bs \in { << 1, 1 >>, << 1, 0 >>, << 0, 1 >> } }
Lists == { << u >> : u \in Ups } \cup { << u, v >> : u \in { w \in Ups : w.b.pe = 0 /\ w.b.index = 1 }, v \in { w \in Ups : w.b.pe = 0 } }
Wrong(s) == { s, [s EXCEPT !.gen = @ + 1] }
Pars == { [ id |-> i, nv |-> 2, max |-> m ] : i \in {1}, m \in 1..MaxTransitions }
NoProof == [ vk |-> 0 ]
None == [ asked |-> FALSE ]
Init == setups = {} /\ made = NoProof /\ verdict = None
Setup(p) == made = NoProof /\ setups = {} /\ setups' = { p } /\ UNCHANGED << made, verdict >>
Prove(f, ups, s) ==
  /\ setups # {} /\ made = NoProof
  /\ LET par == CHOOSE p \in setups : TRUE IN
     /\ Len(ups) <= par.max
     /\ made' = [ by |-> [ f |-> f, ups |-> ups, s |-> s, max |-> par.max ] ] @@ ProofOf(par, 2, f, ups, s, par.max)
  /\ UNCHANGED << setups, verdict >>
\* asked about its own blocks, or others, under this key or another
Ask(vk, f, l) == made # NoProof /\ verdict = None
  /\ verdict' = [ asked |-> TRUE, f |-> f, l |-> l, vk |-> vk, yes |-> Verifies(vk, f, l, made) ] /\ UNCHANGED << setups, made >>
Own == made.by.ups[Len(made.by.ups)].b
AskOwn == made # NoProof /\ \E vk \in {1, 2} : Ask(vk, made.by.f, Own)
OtherFirst == { [ made.by.f EXCEPT !.mns = 1 - @ ], [ made.by.f EXCEPT !.ee = 2 ], [ made.by.f EXCEPT !.pe = 2 ], [ made.by.f EXCEPT !.keys[2] = 7 ],
                [ made.by.f EXCEPT !.keys = << @[1] >> ], [ made.by.f EXCEPT !.maxv = 3 ] }
OtherLast == { [ Own EXCEPT !.mns = 1 - @ ], [ Own EXCEPT !.ee = 2 ], [ Own EXCEPT !.pe = 2 ], [ Own EXCEPT !.keys[2] = 7 ], [ Own EXCEPT !.index = @ + 1 ] }
AskOther == made # NoProof /\ made.good /\ (\/ \E f \in OtherFirst : Ask(made.vk, f, Own) \/ \E l \in OtherLast : Ask(made.vk, made.by.f, l))
Next == \/ \E p \in Pars : Setup(p)
        \/ \E f \in Firsts, ups \in Lists : \E s \in Wrong(Ch!HonestSig(f, ups)) : Prove(f, ups, s)
        \/ AskOwn \/ AskOther
Spec == Init /\ [][Next]_vars

Yes == verdict # None /\ verdict.yes
\* filling up neither helps nor hurts
FillHarmless == made # NoProof => (made.good <=> Ch!Accept(made.by.f, made.by.ups, made.by.s))
\* accepted means attested: a chain, signed, from what was shown to what was shown
Attested == Yes =>
  /\ verdict.vk \in { p.id : p \in setups } /\ Ch!Accept(made.by.f, made.by.ups, made.by.s)
  /\ PubFirst(verdict.f) = PubFirst(made.by.f) /\ PubLast(verdict.l) = PubLast(Own)
  /\ verdict.l.index > verdict.f.index
\* an honest proof of a good chain is accepted
Complete == (verdict # None /\ verdict.f = made.by.f /\ verdict.l = Own /\ verdict.vk = made.vk /\ Ch!Accept(made.by.f, made.by.ups, made.by.s)) => verdict.yes
\* nothing but the published part of the blocks matters
Unpublished == (Yes /\ verdict.f # made.by.f) => [ verdict.f EXCEPT !.ee = 0 ] = [ made.by.f EXCEPT !.ee = 0 ] \/ Keys(verdict.f) = Keys(made.by.f)

\* ---- scripts --------------------------------------------------------------------------------
Blk(i, ee, pe, m, ks) == [ index |-> i, round |-> (i * 7) % 256, ee |-> ee, pe |-> pe, mns |-> m, keys |-> ks, maxv |-> Len(ks) ]
Bases ==
  << [ first |-> Blk(4, 3, 2, 1, << 2, 5 >>), ups |-> << U(Blk(5, 4, 3, 1, << 3, 7 >>), << 1, 1 >>), U(Blk(6, 5, 4, 0, << 4, -3 >>), << 1, 0 >>) >> ],
     [ first |-> Blk(0, 0, 0, 1, << 2, 5, -4 >>), ups |-> << U(Blk(1, 1, 2, 2, << 3, 7, 2 >>), << 1, 0, 1 >>), U(Blk(2, 3, 4, 0, << 2, 2, 5 >>), << 0, 1, 0 >>) >> ],
     [ first |-> Blk(65534, 6, 0, 0, << 2 >>), ups |-> << U(Blk(65535, 7, 6, 0, << 3 >>), << 1 >>) >> ],
     [ first |-> Blk(300, 3, 2, 1, << 2, PadKey >>), ups |-> << U(Blk(301, 0, 3, 1, << 3, PadKey >>), << 1, 0 >>), U(Blk(302, 5, 0, 1, << 4, PadKey >>), << 1, 0 >>) >> ],
     [ first |-> Blk(10, 0, 5, 1, << 2, 6, PadKey >>), ups |-> << U(Blk(11, 4, 3, 0, << 6, 7, 9 >>), << 1, 1, 0 >>) >> ] >>
N(c) == Len(c.first.keys)
Ents == { 0, Ch!ZeroEntropy, 3, 4 }
Mut(c) ==
  { c } \cup UNION { { [ c EXCEPT !.ups[k].b.index = x ] : x \in { 0, (c.ups[k].b.index + 1) % 65536, c.first.index } }
              \cup { [ c EXCEPT !.ups[k].b.pe = x ] : x \in Ents } \cup { [ c EXCEPT !.ups[k].b.mns = x ] : x \in 0..1 }
              \cup { [ c EXCEPT !.ups[k].bits = x ] : x \in [ 1..N(c) -> {0, 1} ] }
              \cup { [ c EXCEPT !.ups[k].b.keys[N(c)] = x ] : x \in { PadKey, -3, 2 } } : k \in 1..Len(c.ups) }
  \cup { [ c EXCEPT !.first.mns = x ] : x \in 0..2 } \cup { [ c EXCEPT !.first.ee = x ] : x \in Ents }
  \cup { [ c EXCEPT !.first.keys[N(c)] = x ] : x \in { PadKey, -2, 3 } }
  \cup (IF Len(c.ups) > 1 THEN { [ c EXCEPT !.ups = << @[2], @[1] >> ], [ c EXCEPT !.ups = << @[1] >> ], [ c EXCEPT !.ups = << @[2] >> ] } ELSE {})
\* questions about a proof: other blocks, other keys, other proofs
Q(vk, proof, f, l) == [ vk |-> vk, proof |-> proof, first |-> f, last |-> l ]
Twisted(b) == { [ b EXCEPT !.index = (@ + 1) % 65536 ], [ b EXCEPT !.index = (@ + 256) % 65536 ], [ b EXCEPT !.round = (@ + 1) % 256 ], [ b EXCEPT !.ee = 5 - (@ % 3) ], [ b EXCEPT !.pe = 5 - (@ % 3) ],
                [ b EXCEPT !.ee = Ch!ZeroEntropy ], [ b EXCEPT !.pe = 0 ], [ b EXCEPT !.mns = @ + 1 ], [ b EXCEPT !.mns = @ + 65536 ], [ b EXCEPT !.keys[1] = 8 ], [ b EXCEPT !.keys[Len(b.keys)] = - @ ],
                [ b EXCEPT !.keys = Reverse(@) ], [ b EXCEPT !.maxv = @ + 1 ], [ b EXCEPT !.maxv = 0 ], [ b EXCEPT !.keys = Append(@, PadKey) ] }
              \cup (IF Len(b.keys) > 1 THEN { [ b EXCEPT !.keys = SubSeq(@, 1, Len(@) - 1) ], [ b EXCEPT !.keys = Append(SubSeq(@, 1, Len(@) - 1), - @[1]) ] } ELSE {})
LastOf(c) == c.ups[Len(c.ups)].b
Basic(c) == << Q(0, 0, c.first, LastOf(c)), Q(1, 0, c.first, LastOf(c)), Q(0, 1, c.first, LastOf(c)), Q(0, 2, c.first, LastOf(c)), Q(0, 0, LastOf(c), c.first) >>
All(c) == Basic(c) \o << Q(2, 0, c.first, LastOf(c)), Q(0, 0, c.first, c.first), Q(0, 0, LastOf(c), LastOf(c)) >>
          \o SetToSeq({ Q(0, 0, x, LastOf(c)) : x \in Twisted(c.first) }) \o SetToSeq({ Q(0, 0, c.first, x) : x \in Twisted(LastOf(c)) })
Ask1(c, s, max, arg, helper, qs) == [ op |-> "prove", nv |-> N(c), max |-> max, arg |-> arg, helper |-> helper, first |-> c.first, ups |-> c.ups, sig |-> s, asks |-> qs ]
Sigs(c) == LET h == Ch!HonestSig(c.first, c.ups) IN { [ h EXCEPT !.junk = 1 ], [ h EXCEPT !.coef[1] = @ + 1 ], [ h EXCEPT !.gen = 1 ] }
Fit(h) == h.gen # 0 \/ h.junk # 0 \/ \E k \in 1..Len(h.coef) : h.coef[k] # 0
Honest(c) == LET h == Ch!HonestSig(c.first, c.ups) IN h
Scripts ==
  UNION { { Ask1(c, Honest(c), m, m, 0, Basic(c)) : c \in { d \in Mut(Bases[b]) : Fit(Honest(d)) }, m \in 2..3 } : b \in {1, 2, 4} }
  \cup UNION { { Ask1(c, Honest(c), m, m, 0, Basic(c)) : c \in { d \in Mut(Bases[b]) : Fit(Honest(d)) }, m \in 1..3 } : b \in {3, 5} }
  \cup { Ask1(Bases[b], Honest(Bases[b]), m, m, 0, All(Bases[b])) : b \in 1..5, m \in 2..4 }
  \cup UNION { { Ask1(Bases[b], s, 3, 3, 0, Basic(Bases[b])) : s \in Sigs(Bases[b]) } : b \in 1..5 }
  \cup { Ask1(Bases[b], Honest(Bases[b]), m, m + d, 0, Basic(Bases[b])) : b \in {1, 3}, m \in 2..3, d \in {-1, 1} }
  \cup { Ask1(Bases[b], Honest(Bases[b]), m, m, 1, Basic(Bases[b])) : b \in {1, 2, 4, 5}, m \in 2..3 }
Usable(x) == Len(x.ups) <= x.arg
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq({ x \in Scripts : Usable(x) })) ELSE TRUE
=============================================================================
