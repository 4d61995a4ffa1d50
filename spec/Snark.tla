-------------------------------- MODULE Snark --------------------------------
(* Keys, provers and verifiers.  A setup fixes the number of validators and *)
(* the longest chain.  A prover fills a shorter chain up with dummies       *)
(* before its last block, signed by as many of the same validators as that  *)
(* block.  A verifier sees the key, the published part of two blocks and    *)
(* the proof, and nothing else.                                             *)
EXTENDS Integers, Sequences
CONSTANTS PadKey, MaxIndex
Ch == INSTANCE EpochChain WITH pc <- "", first <- 0, chain <- << >>, at <- 0, sig <- 0, st <- 0, eb <- FALSE, coefs <- << >>, dummies <- 0, ok <- FALSE

Filler(n, bits) == [ b |-> [ index |-> 0, round |-> 0, ee |-> Ch!ZeroEntropy, pe |-> Ch!ZeroEntropy, mns |-> 0, keys |-> [ k \in 1..n |-> PadKey ] ], bits |-> bits ]
Fill(ups, max, n) ==
  LET m == Len(ups) u == ups[m] IN
  SubSeq(ups, 1, m - 1) \o [ k \in 1..(max - m) |-> Filler(n, u.bits) ] \o << u >>
FillSig(s, m, max) == [ coef |-> SubSeq(s.coef, 1, m - 1) \o [ k \in 1..(max - m) |-> 0 ] \o << s.coef[m] >>, gen |-> s.gen + (max - m), junk |-> s.junk ]

\* what is published of the first and of the last block
RECURSIVE Pads(_)
Pads(n) == IF n <= 0 THEN << >> ELSE << PadKey >> \o Pads(n - 1)
Keys(b) == b.keys \o Pads(b.maxv - Len(b.keys))
PubFirst(b) == [ index |-> b.index, pe |-> Ch!Val(b.pe), mns |-> b.mns, keys |-> Keys(b) ]
\* the aggregate key published beside them is that of the keys without padding
PubLast(b) == [ index |-> b.index, ee |-> Ch!Val(b.ee), mns |-> b.mns, keys |-> Keys(b), agg |-> Ch!BG!All(b.keys) ]

\* the chain fits the circuit
Fits(par, nv, f, ups, max) ==
  /\ nv = par.nv /\ max = par.max /\ Len(ups) \in 1..max
  /\ Len(f.keys) = nv /\ \A k \in 1..Len(ups) : Len(ups[k].b.keys) = nv /\ Len(ups[k].bits) = nv
Plain(b) == [ index |-> b.index, round |-> b.round, ee |-> b.ee, pe |-> b.pe, mns |-> b.mns, keys |-> b.keys, maxv |-> Len(b.keys) ]
ProofOf(par, nv, f, ups, s, max) ==
  LET l == ups[Len(ups)].b IN
  [ vk |-> par.id, good |-> Fits(par, nv, f, ups, max) /\ Ch!Accept(f, Fill(ups, max, nv), FillSig(s, Len(ups), max)),
    first |-> PubFirst(Plain(f)), last |-> PubLast(Plain(l)) ]
Verifies(vk, f, l, p) == p.good /\ p.vk = vk /\ p.first = PubFirst(f) /\ p.last = PubLast(l)
=============================================================================
