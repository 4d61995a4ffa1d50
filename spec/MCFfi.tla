-------------------------------- MODULE MCFfi --------------------------------
(* Small sessions exhaustively, long ones at random; the latter are the    *)
(* scripts of the foreign caller that drives the real code.                *)
EXTENDS Ffi, TLC, Json, IOUtils
CONSTANTS Sim, MaxHeap, MaxHist, MaxLevel, Msgs, Extras, SkVals, Kinds
VARIABLES hist, last
vars == << fvars, hist, last >>
mview == << fvars, last >>
MCMsgs == { <<1>>, <<2, 1>> }
MCExtras == { << >>, <<2>> }
OneMsg == { <<1>> }
TwoExtras == { << >>, <<1>> }
SimMsgs == { << >>, <<1>>, <<2, 1>>, [ i \in 1..40 |-> i ] }
SimSk == { 1, 2, 3, 7, -1 }
AllKinds == { "flags", "keys", "bytes" }

P(X) == IF Sim THEN (IF X = {} THEN {} ELSE { RandomElement(X) }) ELSE X
Seqs(X, n) == IF Sim THEN (IF X = {} THEN { << >> } ELSE { TLCEval([ i \in 1..RandomElement(0..n) |-> RandomElement(X) ]) })
              ELSE UNION { [ 1..m -> X ] : m \in 0..n }
Live(k) == { i \in 1..Len(heap) : heap[i].live /\ heap[i].k = k }
Room == Len(heap) < MaxHeap
\* exhaustively, a session ends with its question
Log(op) == (IF Sim THEN Len(hist) < MaxHist ELSE last.q = "none") /\ hist' = IF MaxHist = 0 THEN << >> ELSE Append(hist, op)
Quiet == last' = [ q |-> "none" ]
\* modes are drawn evenly, the refused one less often
Flags == IF Sim THEN { RandomElement({ << TRUE, TRUE, 1 >>, << TRUE, FALSE, 1 >>, << FALSE, FALSE, 1 >>, << TRUE, TRUE, 2 >>, << TRUE, FALSE, 2 >>, << FALSE, FALSE, 2 >>, << FALSE, TRUE, 1 >> }) }
         ELSE { << c, x, 1 >> : c \in BOOLEAN, x \in BOOLEAN }

Init == FfiInit /\ hist = << >> /\ last = [ q |-> "none" ]
DoNewKey == Room /\ (Sim => Cardinality(Live("sk")) < 3) /\ \E n \in P(SkVals) : NewKey(n) /\ Log([ op |-> "newkey", sk |-> n ]) /\ Quiet
DoGenKey == Sim /\ Room /\ Cardinality(Live("sk")) < 3 /\ NewKey(1000003 + Len(heap)) /\ Log([ op |-> "genkey", sk |-> 1000003 + Len(heap) ]) /\ Quiet
DoToPublic == Room /\ \E i \in P(Live("sk")) : ToPublic(i) /\ Log([ op |-> "topub", o |-> i ]) /\ Quiet
DoSign == Room /\ \E k \in P(Live("sk")), m \in P(Msgs), x \in P(Extras), f \in Flags, r \in BOOLEAN :
  Sign(k, m, x, f[1], f[2], r) /\ Log([ op |-> "sign", k |-> k, msg |-> m, extra |-> x, comp |-> f[1], cip |-> f[2] ]) /\ Quiet
DoSignPop == Room /\ \E k \in P(Live("sk")), m \in P(Msgs) : SignPop(k, m) /\ Log([ op |-> "signpop", k |-> k, msg |-> m ]) /\ Quiet
DoVerify == \E k \in P(Live("pk")), m \in P(Msgs), x \in P(Extras), s \in P(Live("sig")), f \in Flags, r \in BOOLEAN, v \in {"yes", "no", "unset"} :
  /\ Verify(k, m, x, s, f[1], f[2], r, v)
  /\ Log([ op |-> "verify", k |-> k, msg |-> m, extra |-> x, s |-> s, comp |-> f[1], cip |-> f[2] ])
  /\ last' = [ q |-> "verify", k |-> k, msg |-> m, extra |-> x, s |-> s, m |-> Mode(f[1], f[2]), v |-> v ]
DoVerifyPop == \E k \in P(Live("pk")), m \in P(Msgs), s \in P(Live("sig")), v \in {"yes", "no"} :
  /\ VerifyPop(k, m, s, v) /\ Log([ op |-> "verifypop", k |-> k, msg |-> m, s |-> s ])
  /\ last' = [ q |-> "pop", k |-> k, msg |-> m, s |-> s, v |-> v ]
DoTamper == Room /\ \E s \in P(Live("sig")), n \in P({1, -1}) : Tamper(s, n) /\ Log([ op |-> "tamper", s |-> s, n |-> n ]) /\ Quiet
Items == IF Live("pk") = {} \/ Live("sig") = {} THEN { << >> }
         ELSE Seqs([ k : Live("pk"), s : Live("sig"), msg : Msgs, extra : Extras ], IF Sim THEN 4 ELSE 1)
DoBatch == "flags" \in Kinds /\ (Sim => Cardinality(Live("sig")) > 2) /\ \E it \in Items, f \in Flags, r \in BOOLEAN, v \in {"yes", "no", "unset"} :
  BatchVerify(it, f[1], f[2], r, v) /\ Log([ op |-> "bvsig", items |-> it, comp |-> f[1], cip |-> f[2] ]) /\ Quiet
Batches == IF Sim THEN { TLCEval([ i \in 1..RandomElement(0..3) |->
                 [ msg |-> RandomElement(Msgs), extra |-> RandomElement(Extras),
                   ks |-> CHOOSE q \in Seqs(Live("pk"), 3) : TRUE, ss |-> CHOOSE q \in Seqs(Live("sig"), 3) : TRUE ] ]) }
           ELSE { << [ msg |-> m, extra |-> x, ks |-> ks, ss |-> ss ] >> : m \in Msgs, x \in Extras, ks \in Seqs(Live("pk"), 1), ss \in Seqs(Live("sig"), 1) }
DoStrict == "flags" \in Kinds /\ (Sim => Cardinality(Live("sig")) > 2) /\ \E b \in Batches, f \in Flags, r \in BOOLEAN :
  /\ \E e \in { [ i \in 1..Len(b) |-> BatchGood(b[i], Mode(f[1], f[2])) ] } : BatchStrict(b, f[1], f[2], r, e)
  /\ Log([ op |-> "bvstrict", batches |-> b, comp |-> f[1], cip |-> f[2] ])
  /\ last' = [ q |-> "strict", b |-> b, m |-> Mode(f[1], f[2]), v |-> r ]
DoAggKeys == "keys" \in Kinds /\ Room /\ \E ks \in Seqs(Live("pk"), IF Sim THEN 4 ELSE 2) : AggKeys(ks) /\ Log([ op |-> "aggkeys", ks |-> ks ]) /\ Quiet
DoSubKeys == "keys" \in Kinds /\ Room /\ \E k \in P(Live("pk")), ks \in Seqs(Live("pk"), IF Sim THEN 4 ELSE 2) :
  SubKeys(k, ks) /\ Log([ op |-> "subkeys", k |-> k, ks |-> ks ]) /\ Quiet
DoAggSigs == "keys" \in Kinds /\ Room /\ \E ss \in Seqs(Live("sig"), IF Sim THEN 4 ELSE 2) : AggSigs(ss) /\ Log([ op |-> "aggsigs", ss |-> ss ]) /\ Quiet
DoSerialize == "bytes" \in Kinds /\ Room /\ \E i \in P(Live("sk") \cup Live("pk") \cup Live("sig")), f \in P({"c", "u"}) :
  Encode(i, f) /\ Log([ op |-> "ser", o |-> i, form |-> f ]) /\ Quiet
DoCompress == "bytes" \in Kinds /\ Room /\ \E i \in P({ i \in Live("buf") : heap[i].v[1] = "u" }), r \in BOOLEAN :
  Compress(i, heap[i].v[2], r) /\ Log([ op |-> "compress", o |-> i, kind |-> heap[i].v[2] ]) /\ Quiet
DoDeserialize == "bytes" \in Kinds /\ Room /\ \E i \in P({ i \in Live("buf") : heap[i].v[1] = "c" }), w \in P(BOOLEAN) :
  LET kind == IF heap[i].v[2] = "pk" /\ w THEN "cached" ELSE heap[i].v[2] IN
  Decode(i, kind) /\ Log([ op |-> "deser", o |-> i, kind |-> kind ]) /\ Quiet
DoHash == "flags" \in Kinds /\ Room /\ \E w \in P({"direct", "attempt", "composite", "cip22"}), m \in P(Msgs), x \in P(Extras), p \in P(BOOLEAN) :
  Hash(w, m, x, p) /\ Log([ op |-> "hash", which |-> w, msg |-> m, extra |-> x, pop |-> p ]) /\ Quiet
DoPart == Sim /\ "flags" \in Kinds /\ Room /\ \E w \in P({"crh", "first"}), m \in P(Msgs), n \in P({32, 48, 64, 96, 200}) :
  Part(w, m, n) /\ Log([ op |-> "part", which |-> w, msg |-> m, n |-> n ]) /\ Quiet
DoRelease == (Sim => Len(heap) > 8 /\ RandomElement(1..3) = 1) /\ \E i \in P({ i \in 1..Len(heap) : heap[i].live }) :
  Release(i) /\ Log([ op |-> "destroy", o |-> i ]) /\ Quiet
DoReleaseNull == Sim /\ RandomElement(1..20) = 1 /\ \E k \in P({"sk", "pk", "sig", "buf"}) : Same /\ Log([ op |-> "destroynull", kind |-> k ]) /\ Quiet

\* simulation only: questions that are answered with yes
Good == { q \in [ k : Live("pk"), s : Live("sig"), m : {"direct", "composite", "cip22"}, msg : Msgs, extra : Extras ] :
            heap[q.s].v = Signed(heap[q.k].v, q.m, SIG, q.msg, q.extra) }
Cip(m) == m = "cip22"
Comp(m) == m # "direct"
DoGoodVerify == Sim /\ \E q \in P(Good), r \in BOOLEAN, v \in {"yes", "no", "unset"} :
  /\ Verify(q.k, q.msg, q.extra, q.s, Comp(q.m), Cip(q.m), r, v)
  /\ Log([ op |-> "verify", k |-> q.k, msg |-> q.msg, extra |-> q.extra, s |-> q.s, comp |-> Comp(q.m), cip |-> Cip(q.m) ]) /\ Quiet
GoodPop == { q \in [ k : Live("pk"), s : Live("sig"), msg : Msgs ] : heap[q.s].v = Signed(heap[q.k].v, "direct", POP, q.msg, << >>) }
DoGoodPop == Sim /\ \E q \in P(GoodPop), v \in {"yes", "no"} :
  VerifyPop(q.k, q.msg, q.s, v) /\ Log([ op |-> "verifypop", k |-> q.k, msg |-> q.msg, s |-> q.s ]) /\ Quiet
DoGoodBatch == Sim /\ "flags" \in Kinds /\ \E m \in P({ q.m : q \in Good }) :
  LET S == { q \in Good : q.m = m } IN
  \E it \in { TLCEval([ i \in 1..RandomElement(1..3) |-> LET q == RandomElement(S) IN [ k |-> q.k, s |-> q.s, msg |-> q.msg, extra |-> q.extra ] ]) },
     r \in BOOLEAN, v \in {"yes", "no", "unset"} :
    BatchVerify(it, Comp(m), Cip(m), r, v) /\ Log([ op |-> "bvsig", items |-> it, comp |-> Comp(m), cip |-> Cip(m) ]) /\ Quiet
DoGoodStrict == Sim /\ "flags" \in Kinds /\ \E g \in P(Good) :
  LET S == { q \in Good : q.m = g.m /\ Point(q.m, SIG, q.msg, q.extra) = Point(g.m, SIG, g.msg, g.extra) } IN
  \E qs \in { TLCEval([ i \in 1..RandomElement(1..3) |-> RandomElement(S) ]) },
     z \in { TLCEval(IF RandomElement(1..3) = 1 THEN << RandomElement(Live("sig")) >> ELSE << >>) } :
   LET b == << [ msg |-> g.msg, extra |-> g.extra, ks |-> [ i \in 1..Len(qs) |-> qs[i].k ], ss |-> [ i \in 1..Len(qs) |-> qs[i].s ] \o z ],
               [ msg |-> g.msg, extra |-> g.extra, ks |-> << g.k >>, ss |-> IF z = << >> THEN << g.s >> ELSE z ] >> IN
   \E r \in BOOLEAN :
    /\ \E e \in { [ i \in 1..Len(b) |-> BatchGood(b[i], g.m) ] } : BatchStrict(b, Comp(g.m), Cip(g.m), r, e)
    /\ Log([ op |-> "bvstrict", batches |-> b, comp |-> Comp(g.m), cip |-> Cip(g.m) ])
    /\ last' = [ q |-> "strict", b |-> b, m |-> g.m, v |-> r ]
DoEmit == /\ Sim /\ Len(hist) >= MaxHist /\ last.q # "end"
          /\ PrintT("SCRIPT " \o ToJson(hist)) /\ last' = [ q |-> "end" ] /\ UNCHANGED << fvars, hist >>
Next == DoNewKey \/ DoGenKey \/ DoToPublic \/ DoSign \/ DoSignPop \/ DoVerify \/ DoVerifyPop \/ DoTamper \/ DoBatch \/ DoStrict
  \/ DoAggKeys \/ DoSubKeys \/ DoAggSigs \/ DoSerialize \/ DoCompress \/ DoDeserialize \/ DoHash \/ DoPart \/ DoRelease \/ DoReleaseNull
  \/ DoGoodVerify \/ DoGoodPop \/ DoGoodBatch \/ DoGoodStrict \/ DoEmit
Spec == Init /\ [][Next]_vars
LevelBound == TLCGet("level") <= MaxLevel

-----------------------------------------------------------------------------
\* what verifies under one choice of hash, domain and key verifies under no other
ModesApart == last.q = "verify" /\ last.v = "yes" /\ heap[last.k].v # 0 =>
  /\ \A m \in {"direct", "composite", "cip22"} \ { last.m } : \A msg \in P(Msgs), x \in P(Extras), k \in P(Live("pk")) :
        heap[last.s].v # Signed(heap[k].v, m, SIG, msg, x)
  /\ \A k \in P(Live("pk")), msg \in P(Msgs) : heap[last.s].v # Signed(heap[k].v, "direct", POP, msg, << >>)
\* the refused combination answers nothing
Refused == last.q = "verify" => (last.m = "refused" <=> last.v = "unset")
StrictSound == last.q = "strict" /\ last.v => \A i \in 1..Len(last.b) :
  /\ \A j \in 1..Len(last.b[i].ss) : \E k \in 1..Len(last.b[i].ks) :
       heap[last.b[i].ss[j]].v = Signed(heap[last.b[i].ks[k]].v, last.m, SIG, last.b[i].msg, last.b[i].extra)
  /\ \A k \in 1..Len(last.b[i].ks) : \E j \in 1..Len(last.b[i].ss) :
       heap[last.b[i].ss[j]].v = Signed(heap[last.b[i].ks[k]].v, last.m, SIG, last.b[i].msg, last.b[i].extra)
\* cells are never rewritten, only released
Stable == [][ \A i \in 1..Len(heap) : i <= Len(heap') /\ heap'[i].k = heap[i].k /\ heap'[i].v = heap[i].v /\ (heap'[i].live => heap[i].live) ]_vars
=============================================================================
