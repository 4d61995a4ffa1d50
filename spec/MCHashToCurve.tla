---------------------------- MODULE MCHashToCurve ----------------------------
EXTENDS HashToCurve, TLC, Json, IOUtils, SequencesExt, FiniteSets, FiniteSetsExt

Kinds == {"good", "nopoint", "torsion"}
VARIABLE hist   \* kinds tried in this job
vars == << h2cvars, hist >>

Init == H2CInit /\ hist = << >>
MCStart == \E m \in {"legacy", "cip22"}, d \in {"D1", "D2"}, x \in {<<>>, <<9>>}, msg \in {<<>>, <<1>>} :
             Start(m, d, msg, x, 48) /\ hist' = << >>
Tok(i) == << 77 >> \o i   \* an injective stand-in for the CRH
MCDigest == /\ st = "trying" /\ c < NumTries /\ Digest(job.domain, CrhInput(c), job.len, Tok(CrhInput(c)))
            /\ UNCHANGED hist
MCCandidate == \E k \in Kinds : \E d \in digests :
   LET seed == IF job.mode = "legacy" THEN d[2] ELSE << c >> \o job.extra \o d[2]
   IN Candidate(job.domain, seed, job.len, k) /\ hist' = Append(hist, k)
MCErr == HasherError(job.domain) /\ UNCHANGED hist
MCExh == Exhausted /\ UNCHANGED hist
MCFinish == Finish /\ UNCHANGED hist
Next == MCStart \/ MCDigest \/ MCCandidate \/ MCErr \/ MCExh \/ MCFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(MCDigest \/ MCCandidate \/ MCExh \/ MCFinish)

FirstGood == st = "found" => /\ Len(hist) = c + 1 /\ hist[c + 1] = "good"
                             /\ \A i \in 1..c : hist[i] # "good"
FailsOnlyExhausted == st = "failed" => Len(hist) = NumTries /\ \A i \in 1..NumTries : hist[i] # "good"
CounterBound == c \in 0..NumTries
Terminates == (st = "trying") ~> (st # "trying")

\* candidate scripts replayed into the real code: what candidate(c) is, for c = 0, 1, ...
\* (the last entry repeats)
CandKinds == {"nores", "toobig", "torsion", "inf", "xzero", "hasherr"}
GoodKinds == {"goodpos", "goodneg", "goodinfbit"}
CandPrefixes == {<< >>} \cup { <<a>> : a \in CandKinds \ {"hasherr"} } \cup { <<a, b>> : a \in {"nores", "toobig", "torsion", "inf"}, b \in CandKinds }
Scripts ==
     { Append(p, g) : p \in CandPrefixes, g \in GoodKinds }
 \cup { [i \in 1..n |-> IF i < n THEN b ELSE g] : n \in {4, 17, 128, 129, 200, 254, 255}, b \in {"nores", "torsion"}, g \in {"goodpos", "goodneg"} }
 \cup { [i \in 1..256 |-> IF i < 256 THEN b ELSE "goodpos"] : b \in {"nores", "torsion", "inf", "toobig"} }
Gen == { [op |-> "mock", mode |-> m, curve |-> "g1", cands |-> s, msglen |-> ml, extralen |-> xl] :
           m \in {"legacy", "cip22"}, s \in Scripts, ml \in {5}, xl \in {3} }
  \cup { [op |-> "mock", mode |-> m, curve |-> cv, cands |-> s, msglen |-> ml, extralen |-> xl] :
           m \in {"legacy", "cip22"}, cv \in {"g1", "g2"}, s \in {<<"nores", "goodpos">>, <<"goodneg">>, <<"torsion", "goodneg">>}, ml \in {0, 1, 40, 200}, xl \in {0, 1, 33} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
