------------------------------ MODULE TraceFfi ------------------------------
(* One session of calls through the real C interface per line.  cls is the *)
(* first cell of the session whose contents equal the one just made (the   *)
(* real code's equality for keys and signatures, the bytes for buffers);   *)
(* pcls is the first signature that equals the point a hash answered.      *)
EXTENDS Ffi, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLES l, j
vars == << fvars, l, j >>
Init == FfiInit /\ l \in 1..Parts /\ j = 1
Ev == Trace[l]
Op == Ev.ops[j]
Is(o) == l <= N /\ j <= Len(Ev.ops) /\ Op.op = o /\ j' = j + 1 /\ UNCHANGED l
Twins(h, k, v) == { i \in 1..Len(h) : h[i].k = k /\ h[i].v = v }
Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A h \in S : i <= h
\* what was made: one result if the heap grew, else none, and it equals what it should
Made == IF Len(heap') > Len(heap)
        THEN LET c == heap'[Len(heap')] IN
             /\ Op.ret /\ Op.made = 1
             /\ Op.cls = IF c.k = "sk" THEN 0 ELSE Least(Twins(heap', c.k, c.v))
        ELSE Op.made = 0 /\ Op.cls = -1
Silent == Op.verdict = "unset"
Width == [ sk |-> 32, pk |-> 96, sig |-> 48 ]

TNewKey == Is("newkey") /\ NewKey(Op.sk) /\ Made /\ Silent
TGenKey == Is("genkey") /\ NewKey(Op.sk) /\ Made /\ Silent
TToPublic == Is("topub") /\ ToPublic(Op.o) /\ Made /\ Silent
TSign == Is("sign") /\ Sign(Op.k, Op.msg, Op.extra, Op.comp, Op.cip, Op.ret) /\ Made /\ Silent
TSignPop == Is("signpop") /\ SignPop(Op.k, Op.msg) /\ Made /\ Silent
TVerify == Is("verify") /\ Verify(Op.k, Op.msg, Op.extra, Op.s, Op.comp, Op.cip, Op.ret, Op.verdict) /\ Made
TVerifyPop == Is("verifypop") /\ Op.ret /\ VerifyPop(Op.k, Op.msg, Op.s, Op.verdict) /\ Made
TBatch == Is("bvsig") /\ BatchVerify(Op.items, Op.comp, Op.cip, Op.ret, Op.verdict) /\ Made
TStrict == Is("bvstrict") /\ BatchStrict(Op.batches, Op.comp, Op.cip, Op.ret, Op.each) /\ Made /\ Silent
TAggKeys == Is("aggkeys") /\ AggKeys(Op.ks) /\ Made /\ Silent
TSubKeys == Is("subkeys") /\ SubKeys(Op.k, Op.ks) /\ Made /\ Silent
TAggSigs == Is("aggsigs") /\ AggSigs(Op.ss) /\ Made /\ Silent
TTamper == Is("tamper") /\ Tamper(Op.s, Op.n) /\ Made
TSerialize == /\ Is("ser") /\ Encode(Op.o, Op.form) /\ Made /\ Silent
              /\ LET b == heap'[Len(heap')].v IN Op.len = Width[b[2]] * (IF b[1] = "u" THEN 2 ELSE 1)
TCompress == /\ Is("compress") /\ Compress(Op.o, Op.kind, Op.ret) /\ Made /\ Silent
             /\ Op.ret => Op.len = Width[Op.kind]
TDeserialize == Is("deser") /\ Decode(Op.o, Op.kind) /\ Made /\ Silent
THash == /\ Is("hash") /\ Hash(Op.which, Op.msg, Op.extra, Op.pop) /\ Made /\ Silent
         /\ Op.pcls = Least(Twins(heap, "sig", Hashed(Op.which, Op.msg, Op.extra, Op.pop)))
         /\ Op.which \in {"attempt", "cip22"} => Op.attempt = Op.refattempt
TPart == Is("part") /\ Part(Op.which, Op.msg, Op.n) /\ Made /\ Silent /\ Op.matches
TRelease == Is("destroy") /\ Release(Op.o) /\ Op.ret /\ Made
TReleaseNull == Is("destroynull") /\ ~Op.ret /\ Same /\ Made
\* everything can be released, exactly; only the cache may keep something
TFinish == /\ Is("finish") /\ Op.ret /\ Op.bad = 0 /\ (cached \/ Op.leaked = 0) /\ Same
TDone == /\ l <= N /\ j = Len(Ev.ops) + 1 /\ Ev.ops[Len(Ev.ops)].op = "finish"
         /\ heap' = << >> /\ cached' = FALSE /\ l' = l + Parts /\ j' = 1
TEnd == l > N /\ UNCHANGED vars
Next == TNewKey \/ TGenKey \/ TToPublic \/ TSign \/ TSignPop \/ TVerify \/ TVerifyPop \/ TBatch \/ TStrict \/ TAggKeys \/ TSubKeys
  \/ TAggSigs \/ TTamper \/ TSerialize \/ TCompress \/ TDeserialize \/ THash \/ TPart \/ TRelease \/ TReleaseNull \/ TFinish \/ TDone \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
