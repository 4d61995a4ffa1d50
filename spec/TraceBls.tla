------------------------------ MODULE TraceBls ------------------------------
(* One recorded session with the real code per line: a hasher and the      *)
(* operations performed through the public API, each with its outcome and, *)
(* where it makes a key or signature, the index of the first element of    *)
(* the pool that the real code considers equal to it.                      *)
EXTENDS Bls, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLES l, j
vars == << blsvars, l, j >>
TraceInit == BlsInit /\ l \in 1..Parts /\ j = 1
Ev == Trace[l]
Op == Ev.ops[j]
Is(o) == /\ l <= N /\ j <= Len(Ev.ops) /\ Op.op = o
         /\ j' = j + 1 /\ UNCHANGED l
First(seq, v) == CHOOSE i \in 1..Len(seq) : seq[i] = v /\ \A h \in 1..(i-1) : seq[h] # v
KeyCls == IF Len(keys') > Len(keys) THEN Op.cls = First(keys', keys'[Len(keys')]) ELSE Op.cls = 0
SigCls == IF Len(sigs') > Len(sigs) THEN Op.cls = First(sigs', sigs'[Len(sigs')]) ELSE Op.cls = 0

TNewKey == Is("newkey") /\ NewKey(Op.sk) /\ KeyCls
TAggKeys == Is("aggkeys") /\ AggKeys(Op.ks) /\ KeyCls
TCombKeys == Is("combkeys") /\ CombKeys(Op.exps, Op.ks, Op.res) /\ KeyCls
TCopyKey == Is("serdekey") /\ CopyKey(Op.k) /\ KeyCls
TSign == Is("sign") /\ Sign(Op.k, Op.msg, Op.extra) /\ SigCls
TSignPop == Is("signpop") /\ SignPop(Op.k, Op.msg) /\ SigCls
TAggSigs == Is("aggsigs") /\ AggSigs(Op.ss) /\ SigCls
TCombSigs == Is("combsigs") /\ CombSigs(Op.exps, Op.ss, Op.res) /\ SigCls
TTamper == Is("tamper") /\ Tamper(Op.s, Op.n) /\ SigCls
TCopySig == Is("serdesig") /\ CopySig(Op.s) /\ SigCls
TVerify == Is("verify") /\ Verify(Op.k, Op.msg, Op.extra, Op.s, Op.res)
TVerifyPop == Is("verifypop") /\ VerifyPop(Op.k, Op.msg, Op.s, Op.res)
TMulti == Is("multi") /\ MultiVerify(Op.s, Op.ks, Op.domain, Op.msgs, Op.res)
TBatchNew == Is("bnew") /\ BatchNew(Op.msg, Op.extra)
TBatchAdd == Is("badd") /\ BatchAdd(Op.k, Op.s)
TBatchVerify == Is("bverify") /\ BatchVerify(Op.res)
TBatchEach == Is("beach") /\ BatchVerifyEach(Op.res)
\* the exponents the batch verifications of this session used: how many were recorded (0: none, the
\* code does it another way), repeats, and bit positions that varied
TExps == /\ Is("exps") /\ UNCHANGED blsvars
         /\ Op.verifies > 0
         /\ Op.n > 0 => Op.repeats = 0 /\ Op.tooFew = 0 /\ (Op.n >= 64 => Op.varied >= 120)
TDone == /\ l <= N /\ j = Len(Ev.ops) + 1
         /\ keys' = << >> /\ sks' = << >> /\ sigs' = << >> /\ batch' = NoBatch
         /\ l' = l + Parts /\ j' = 1
TEnd == l > N /\ UNCHANGED vars
TraceNext == TNewKey \/ TAggKeys \/ TCombKeys \/ TCopyKey \/ TSign \/ TSignPop \/ TAggSigs \/ TCombSigs \/ TTamper \/ TCopySig
  \/ TVerify \/ TVerifyPop \/ TMulti \/ TBatchNew \/ TBatchAdd \/ TBatchVerify \/ TBatchEach \/ TExps \/ TDone \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
