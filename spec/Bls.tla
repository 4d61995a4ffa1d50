--------------------------------- MODULE Bls ---------------------------------
(***************************************************************************)
(* The BLS signature scheme as a state machine over a pool of public keys  *)
(* and signatures.                                                         *)
(*                                                                         *)
(* Groups are modelled generically: a public key is the integer multiple   *)
(* of the generator of G2 it stands for; a signature is a formal integer   *)
(* combination of message hashes ("atoms"), which are independent points.  *)
(* The pairing equation e(sig, g2) = e(H(m), pk) holds iff sig = pk * H(m).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Concat     \* the hash absorbs extra || message as one string (legacy hashing)

VARIABLES keys,     \* Seq(Int): pool of public keys
          sks,      \* sks[k]: secret scalar known for key k, or NoSk
          sigs,     \* Seq(formal combination)
          batch     \* [on, msg, extra, entries] of the open batch
blsvars == << keys, sks, sigs, batch >>

NoSk == -99999
SIG == "ULforxof"
POP == "ULforpop"

-----------------------------------------------------------------------------
\* formal combinations: functions from atoms to non-zero integers
FZero == << >>          \* the empty function
Coef(f, a) == IF a \in DOMAIN f THEN f[a] ELSE 0
FNorm(S, g(_)) == [ a \in { x \in S : g(x) # 0 } |-> g(a) ]
FAdd(f, h) == LET g(a) == Coef(f, a) + Coef(h, a) IN FNorm(DOMAIN f \cup DOMAIN h, g)
FScale(n, f) == LET g(a) == n * f[a] IN FNorm(DOMAIN f, g)
FAtom(n, a) == IF n = 0 THEN FZero ELSE [ x \in {a} |-> n ]
RECURSIVE FSum(_)
FSum(s) == IF s = << >> THEN FZero ELSE FAdd(Head(s), FSum(Tail(s)))
RECURSIVE ISum(_)
ISum(s) == IF s = << >> THEN 0 ELSE Head(s) + ISum(Tail(s))

\* the hash point a (domain, message, extra) triple stands for
Atom(domain, msg, extra) ==
  IF Concat THEN << domain, extra \o msg, << >> >> ELSE << domain, msg, extra >>

ValidSig(k, domain, msg, extra, f) == f = FAtom(k, Atom(domain, msg, extra))

NoBatch == [on |-> FALSE, msg |-> << >>, extra |-> << >>, entries |-> << >>]
BlsInit == keys = << >> /\ sks = << >> /\ sigs = << >> /\ batch = NoBatch

PushKey(v, sk) == keys' = Append(keys, v) /\ sks' = Append(sks, sk) /\ UNCHANGED << sigs, batch >>
PushSig(f) == sigs' = Append(sigs, f) /\ UNCHANGED << keys, sks, batch >>
K(s) == [ i \in 1..Len(s) |-> keys[s[i]] ]
S(s) == [ i \in 1..Len(s) |-> sigs[s[i]] ]

-----------------------------------------------------------------------------
\* actions; the ones that answer a question carry the answer in res
NewKey(sk) == PushKey(sk, sk)
AggKeys(ks) == PushKey(ISum(K(ks)), NoSk)
\* dot product; refused when the lengths differ
CombKeys(exps, ks, res) ==
  IF Len(exps) # Len(ks) THEN res = "none" /\ UNCHANGED blsvars
  ELSE res = "ok" /\ PushKey(ISum([ i \in 1..Len(ks) |-> exps[i] * keys[ks[i]] ]), NoSk)
CopyKey(k) == PushKey(keys[k], sks[k])

Sign(k, msg, extra) == sks[k] # NoSk /\ PushSig(FAtom(sks[k], Atom(SIG, msg, extra)))
SignPop(k, msg) == sks[k] # NoSk /\ PushSig(FAtom(sks[k], Atom(POP, msg, << >>)))
AggSigs(ss) == PushSig(FSum(S(ss)))
CombSigs(exps, ss, res) ==
  IF Len(exps) # Len(ss) THEN res = "none" /\ UNCHANGED blsvars
  ELSE res = "ok" /\ PushSig(FSum([ i \in 1..Len(ss) |-> FScale(exps[i], sigs[ss[i]]) ]))
\* an adversary adds n times an unrelated point
Tamper(s, n) == PushSig(FAdd(sigs[s], FAtom(n, << "junk", << >>, << >> >>)))
CopySig(s) == PushSig(sigs[s])

Verdict(b) == IF b THEN "ok" ELSE "VerificationFailed"
Verify(k, msg, extra, s, res) ==
  res = Verdict(ValidSig(keys[k], SIG, msg, extra, sigs[s])) /\ UNCHANGED blsvars
VerifyPop(k, msg, s, res) ==
  res = Verdict(ValidSig(keys[k], POP, msg, << >>, sigs[s])) /\ UNCHANGED blsvars
\* one aggregate signature against (key, message) pairs
MultiVerify(s, ks, domain, msgs, res) ==
  /\ res = (IF Len(ks) # Len(msgs) THEN "UnevenNumKeysMessages"
            ELSE Verdict(sigs[s] = FSum([ i \in 1..Len(ks) |->
                           FAtom(keys[ks[i]], Atom(domain, msgs[i].msg, msgs[i].extra)) ])))
  /\ UNCHANGED blsvars

BatchNew(msg, extra) == /\ batch' = [on |-> TRUE, msg |-> msg, extra |-> extra, entries |-> << >>]
                        /\ UNCHANGED << keys, sks, sigs >>
BatchAdd(k, s) == /\ batch.on
                  /\ batch' = [batch EXCEPT !.entries = Append(@, << keys[k], sigs[s] >>)]
                  /\ UNCHANGED << keys, sks, sigs >>
AllValid(b) == \A i \in 1..Len(b.entries) :
                 ValidSig(b.entries[i][1], SIG, b.msg, b.extra, b.entries[i][2])
\* strict batch verification (random exponents): all entries must be valid
BatchVerify(res) == batch.on /\ res = Verdict(AllValid(batch)) /\ UNCHANGED blsvars
BatchVerifyEach(res) == batch.on /\ res = Verdict(AllValid(batch)) /\ UNCHANGED blsvars
=============================================================================
