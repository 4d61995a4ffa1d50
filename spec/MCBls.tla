-------------------------------- MODULE MCBls --------------------------------
(* Bounded exhaustive model of the scheme, and (with -simulate) the source  *)
(* of the operation scripts that are replayed into the real code.           *)
EXTENDS Bls, TLC, Json, IOUtils, SequencesExt
MCMsgs == {<<1>>, <<2, 1>>}
MCExtras == {<<>>, <<2>>}
SimSk == {0, 1, 2, 3, 7, -1}

CONSTANTS Fam,         \* which families of operations take part: "agg", "batch"
          Sim,         \* script generation (-simulate): draw parameters instead of enumerating them
          MaxKeys, MaxSigs, SkVals, Msgs, Extras, MaxHist, MaxLevel, MaxList
VARIABLE hist, pend  \* operations so far (script generation); the last answered question
vars == << blsvars, hist, pend >>
mview == << blsvars, pend >>

\* in simulation one random element stands for all
P(X) == IF Sim THEN (IF X = {} THEN {} ELSE {RandomElement(X)}) ELSE X
Log(op) == (Sim => Len(hist) < MaxHist) /\ hist' = IF MaxHist = 0 THEN << >> ELSE Append(hist, op)
KIdx == 1..Len(keys)
SIdx == 1..Len(sigs)
SeqsUpTo(X, n) == UNION { [ 1..m -> X ] : m \in 0..n }
PSeq(X, n) == IF Sim THEN (IF X = {} THEN { << >> } ELSE { TLCEval([ i \in 1..RandomElement(0..n) |-> RandomElement(X) ]) }) ELSE SeqsUpTo(X, n)
LevelBound == TLCGet("level") <= MaxLevel
Results == {"ok", "none", "VerificationFailed", "UnevenNumKeysMessages"}
None == [q |-> "none"]

Init == BlsInit /\ hist = << >> /\ pend = None
Build == pend' = None
DoNewKey == Len(keys) < MaxKeys /\ \E sk \in P(SkVals) : NewKey(sk) /\ Log([op |-> "newkey", sk |-> sk]) /\ Build
DoAggKeys == "agg" \in Fam /\ (Sim => Len(keys) >= 2) /\ Len(keys) < MaxKeys /\ \E ks \in PSeq(KIdx, MaxList) : AggKeys(ks) /\ Log([op |-> "aggkeys", ks |-> ks]) /\ Build
DoSign == Len(sigs) < MaxSigs /\ \E k \in P(KIdx), m \in P(Msgs), x \in P(Extras) :
            Sign(k, m, x) /\ Log([op |-> "sign", k |-> k, msg |-> m, extra |-> x]) /\ Build
DoSignPop == Len(sigs) < MaxSigs /\ \E k \in P(KIdx), m \in P(Msgs) :
            SignPop(k, m) /\ Log([op |-> "signpop", k |-> k, msg |-> m]) /\ Build
DoAggSigs == "agg" \in Fam /\ (Sim => Len(sigs) >= 2) /\ Len(sigs) < MaxSigs /\ \E ss \in PSeq(SIdx, MaxList) : AggSigs(ss) /\ Log([op |-> "aggsigs", ss |-> ss]) /\ Build
DoTamper == Len(sigs) < MaxSigs /\ \E s \in P(SIdx), n \in P({1, -1, 2}) : Tamper(s, n) /\ Log([op |-> "tamper", s |-> s, n |-> n]) /\ Build
DoCombKeys == "agg" \in Fam /\ (Sim => Len(keys) >= 2) /\ Len(keys) < MaxKeys /\ \E ks \in PSeq(KIdx, 2), es \in PSeq({0, 1, 3}, 2), r \in Results :
            CombKeys(es, ks, r) /\ Log([op |-> "combkeys", exps |-> es, ks |-> ks]) /\ Build
DoCombSigs == "agg" \in Fam /\ (Sim => Len(sigs) >= 2) /\ Len(sigs) < MaxSigs /\ \E ss \in PSeq(SIdx, 2), es \in PSeq({0, 1, 3}, 2), r \in Results :
            CombSigs(es, ss, r) /\ Log([op |-> "combsigs", exps |-> es, ss |-> ss]) /\ Build
DoCopy == (Sim => Len(keys) >= 3 /\ Len(sigs) >= 3) /\ (
          \/ Len(keys) < MaxKeys /\ \E k \in P(KIdx) : CopyKey(k) /\ Log([op |-> "serdekey", k |-> k]) /\ Build
          \/ Len(sigs) < MaxSigs /\ \E s \in P(SIdx) : CopySig(s) /\ Log([op |-> "serdesig", s |-> s]) /\ Build)
DoVerify == (Sim => Len(sigs) >= 2) /\ \E k \in P(KIdx), m \in P(Msgs), x \in P(Extras), s \in P(SIdx), r \in Results :
            /\ Verify(k, m, x, s, r) /\ Log([op |-> "verify", k |-> k, msg |-> m, extra |-> x, s |-> s])
            /\ pend' = [q |-> "verify", k |-> k, msg |-> m, extra |-> x, s |-> s, r |-> r]
DoVerifyPop == (Sim => Len(sigs) >= 2) /\ \E k \in P(KIdx), m \in P(Msgs), s \in P(SIdx), r \in Results :
            /\ VerifyPop(k, m, s, r) /\ Log([op |-> "verifypop", k |-> k, msg |-> m, s |-> s])
            /\ pend' = [q |-> "verifypop", k |-> k, msg |-> m, s |-> s, r |-> r]
MsgRecs == [ msg : Msgs, extra : Extras ]
DoMulti == "agg" \in Fam /\ (Sim => Len(sigs) >= 2) /\ \E s \in P(SIdx), ks \in PSeq(KIdx, 2), ms \in PSeq(MsgRecs, 2), d \in P({SIG, POP}), r \in Results :
            /\ MultiVerify(s, ks, d, ms, r)
            /\ Log([op |-> "multi", s |-> s, ks |-> ks, domain |-> d, msgs |-> ms]) /\ Build
DoBatchNew == "batch" \in Fam /\ ~batch.on /\ \E m \in P(Msgs), x \in P(Extras) : BatchNew(m, x) /\ Log([op |-> "bnew", msg |-> m, extra |-> x]) /\ Build
DoBatchAdd == "batch" \in Fam /\ Len(batch.entries) < 3 /\ \E k \in P(KIdx), s \in P(SIdx) : BatchAdd(k, s) /\ Log([op |-> "badd", k |-> k, s |-> s]) /\ Build
DoBatchVerify == "batch" \in Fam /\ \E r \in Results : BatchVerify(r) /\ Log([op |-> "bverify"]) /\ pend' = [q |-> "bverify", r |-> r]
DoBatchEach == "batch" \in Fam /\ \E r \in Results : BatchVerifyEach(r) /\ Log([op |-> "beach"]) /\ pend' = [q |-> "beach", r |-> r]

\* simulation only: bias the questions towards ones answered with yes
Good == { q \in [ k : KIdx, msg : Msgs, extra : Extras, s : SIdx ] : ValidSig(keys[q.k], SIG, q.msg, q.extra, sigs[q.s]) }
DoGoodVerify == Sim /\ \E q \in P(Good), r \in Results :
            /\ Verify(q.k, q.msg, q.extra, q.s, r) /\ Log([op |-> "verify", k |-> q.k, msg |-> q.msg, extra |-> q.extra, s |-> q.s])
            /\ pend' = [q |-> "verify", k |-> q.k, msg |-> q.msg, extra |-> q.extra, s |-> q.s, r |-> r]
DoGoodAdd == "batch" \in Fam /\ Sim /\ batch.on /\ Len(batch.entries) < 6 /\
             \E q \in P({ q \in [ k : KIdx, s : SIdx ] : ValidSig(keys[q.k], SIG, batch.msg, batch.extra, sigs[q.s]) }) :
               BatchAdd(q.k, q.s) /\ Log([op |-> "badd", k |-> q.k, s |-> q.s]) /\ Build
\* the right answer to a many-message question
GoodMulti == [ i \in 1..RandomElement(1..3) |-> RandomElement({ q \in [ k : { k \in KIdx : sks[k] # NoSk }, msg : Msgs, extra : Extras ] : TRUE }) ]
DoGoodMulti == "agg" \in Fam /\ Sim /\ { k \in KIdx : sks[k] # NoSk } # {} /\ Len(hist) + 8 < MaxHist /\ Len(sigs) + 4 <= MaxSigs + 4 /\
  \E g \in { TLCEval(GoodMulti) }, n \in { Len(sigs) } :
    /\ sigs' = sigs \o [ i \in 1..Len(g) |-> FAtom(sks[g[i].k], Atom(SIG, g[i].msg, g[i].extra)) ]
                  \o << FSum([ i \in 1..Len(g) |-> FAtom(sks[g[i].k], Atom(SIG, g[i].msg, g[i].extra)) ]) >>
    /\ hist' = hist \o [ i \in 1..Len(g) |-> [op |-> "sign", k |-> g[i].k, msg |-> g[i].msg, extra |-> g[i].extra] ]
         \o << [op |-> "aggsigs", ss |-> [ i \in 1..Len(g) |-> n + i ]],
                [op |-> "multi", s |-> n + Len(g) + 1, ks |-> [ i \in 1..Len(g) |-> g[i].k ], domain |-> SIG,
                 msgs |-> [ i \in 1..Len(g) |-> [msg |-> g[i].msg, extra |-> g[i].extra] ]] >>
    /\ UNCHANGED << keys, sks, batch >> /\ pend' = None
\* a finished script is printed once
DoEmit == /\ Sim /\ Len(hist) >= MaxHist /\ pend.q # "end"
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ pend' = [q |-> "end"] /\ UNCHANGED << blsvars, hist >>

Next == DoGoodVerify \/ DoGoodAdd \/ DoGoodMulti \/ DoEmit \/ DoNewKey \/ DoAggKeys \/ DoSign \/ DoSignPop \/ DoAggSigs \/ DoTamper \/ DoCombKeys \/ DoCombSigs \/ DoCopy
        \/ DoVerify \/ DoVerifyPop \/ DoMulti \/ DoBatchNew \/ DoBatchAdd \/ DoBatchVerify \/ DoBatchEach
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Honest(k) == sks[k] # NoSk
\* a signature that verifies as a message signature is no proof of possession, and vice versa
DomainSeparation ==
  pend.q = "verify" /\ pend.r = "ok" /\ keys[pend.k] # 0 =>
     \A m \in P(Msgs) : ~ValidSig(keys[pend.k], POP, m, << >>, sigs[pend.s])
\* a signature verifies for at most one (domain, message, extra) atom and one key
Binding ==
  pend.q = "verify" /\ pend.r = "ok" /\ keys[pend.k] # 0 =>
     \A m \in P(Msgs), x \in P(Extras) : \A k \in P(KIdx) :
        ValidSig(keys[k], SIG, m, x, sigs[pend.s]) => keys[k] = keys[pend.k] /\ Atom(SIG, m, x) = Atom(SIG, pend.msg, pend.extra)
\* every honest signature verifies under its own key, and only honest combinations do
Completeness == \A k \in P(KIdx), s \in P(SIdx), m \in P(Msgs), x \in P(Extras) :
  Honest(k) /\ sigs[s] = FAtom(sks[k], Atom(SIG, m, x)) => ValidSig(keys[k], SIG, m, x, sigs[s])
\* the sum of the valid signatures of a key list verifies under the sum of the keys
AggregationSound == \A m \in P(Msgs), x \in P(Extras), k1 \in P(KIdx), k2 \in P(KIdx), s1 \in P(SIdx), s2 \in P(SIdx) :
  ValidSig(keys[k1], SIG, m, x, sigs[s1]) =>
    (ValidSig(keys[k1] + keys[k2], SIG, m, x, FAdd(sigs[s1], sigs[s2])) <=> ValidSig(keys[k2], SIG, m, x, sigs[s2]))
\* strict batch acceptance is exactly acceptance of every entry, so errors cannot cancel
BatchStrict ==
  (pend.q \in {"bverify", "beach"} /\ pend.r = "ok") =>
     \A i \in 1..Len(batch.entries) : ValidSig(batch.entries[i][1], SIG, batch.msg, batch.extra, batch.entries[i][2])
=============================================================================
