--------------------------------- MODULE Ffi ---------------------------------
(***************************************************************************)
(* The C interface as its caller sees it: a heap of handles and buffers,   *)
(* calls that return a flag, write through pointers, and never end the     *)
(* process.  Values are those of the signature scheme (Bls): a public key  *)
(* is an integer, a signature a formal combination of message hashes; two  *)
(* flags of a call choose the hash.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
B == INSTANCE Bls WITH Concat <- TRUE, keys <- << >>, sks <- << >>, sigs <- << >>, batch <- << >>

VARIABLES heap,     \* Seq of cells [k: kind, v: value, live: BOOLEAN]; handed out by calls, released by the caller
          cached    \* some call has left something in the key cache
fvars == << heap, cached >>

SIG == B!SIG
POP == B!POP
Cell(k, v) == [ k |-> k, v |-> v, live |-> TRUE ]
FfiInit == heap = << >> /\ cached = FALSE
Holds(i, k) == i \in 1..Len(heap) /\ heap[i].live /\ heap[i].k = k
New(k, v) == heap' = Append(heap, Cell(k, v))
Same == UNCHANGED fvars
Val(i) == heap[i].v

\* which hash the two flags choose; one combination is refused
Mode(comp, cip) == IF cip THEN IF comp THEN "cip22" ELSE "refused"
                   ELSE IF comp THEN "composite" ELSE "direct"
\* hashes other than CIP22's absorb extra data and message as one string
Point(mode, domain, msg, extra) ==
  IF mode = "cip22" THEN << mode, domain, msg, extra >> ELSE << mode, domain, extra \o msg, << >> >>
Signed(k, mode, domain, msg, extra) == B!FAtom(k, Point(mode, domain, msg, extra))
Word(b) == IF b THEN "yes" ELSE "no"

-----------------------------------------------------------------------------
\* every action carries what the call returned; made: how many results it wrote
NewKey(n) == New("sk", n) /\ UNCHANGED cached
ToPublic(i) == Holds(i, "sk") /\ New("pk", Val(i)) /\ UNCHANGED cached
Sign(k, msg, extra, comp, cip, ret) ==
  /\ Holds(k, "sk") /\ ret = (Mode(comp, cip) # "refused")
  /\ IF ret THEN New("sig", Signed(Val(k), Mode(comp, cip), SIG, msg, extra)) /\ UNCHANGED cached ELSE Same
SignPop(k, msg) == Holds(k, "sk") /\ New("sig", Signed(Val(k), "direct", POP, msg, << >>)) /\ UNCHANGED cached
Verify(k, msg, extra, s, comp, cip, ret, verdict) ==
  LET m == Mode(comp, cip) IN
  /\ Holds(k, "pk") /\ Holds(s, "sig") /\ ret = (m # "refused")
  /\ verdict = IF ret THEN Word(Val(s) = Signed(Val(k), m, SIG, msg, extra)) ELSE "unset"
  /\ Same
VerifyPop(k, msg, s, verdict) ==
  /\ Holds(k, "pk") /\ Holds(s, "sig")
  /\ verdict = Word(Val(s) = Signed(Val(k), "direct", POP, msg, << >>)) /\ Same
\* one answer for the sum of the signatures
BatchVerify(items, comp, cip, ret, verdict) ==
  LET m == Mode(comp, cip)
      sum == B!FSum([ i \in 1..Len(items) |-> Val(items[i].s) ])
      want == B!FSum([ i \in 1..Len(items) |-> Signed(Val(items[i].k), m, SIG, items[i].msg, items[i].extra) ]) IN
  /\ \A i \in 1..Len(items) : Holds(items[i].k, "pk") /\ Holds(items[i].s, "sig")
  /\ ret = (m # "refused") /\ verdict = (IF ret THEN Word(sum = want) ELSE "unset") /\ Same
\* an answer per batch, and the flag says whether all are good
BatchGood(b, m) == m # "refused" /\ Len(b.ks) = Len(b.ss) /\ \A i \in 1..Len(b.ss) : Val(b.ss[i]) = Signed(Val(b.ks[i]), m, SIG, b.msg, b.extra)
BatchStrict(batches, comp, cip, ret, each) ==
  LET m == Mode(comp, cip) IN
  /\ \A i \in 1..Len(batches) : /\ \A j \in 1..Len(batches[i].ks) : Holds(batches[i].ks[j], "pk")
                                /\ \A j \in 1..Len(batches[i].ss) : Holds(batches[i].ss[j], "sig")
  /\ each = [ i \in 1..Len(batches) |-> BatchGood(batches[i], m) ]
  /\ ret = (\A i \in 1..Len(batches) : BatchGood(batches[i], m)) /\ Same
\* the keys of a set: one named twice counts once
SumOf(ks) == LET first == SelectSeq([ i \in 1..Len(ks) |-> i ], LAMBDA i : \A h \in 1..i - 1 : Val(ks[h]) # Val(ks[i])) IN
             B!ISum([ i \in 1..Len(first) |-> Val(ks[first[i]]) ])
AggKeys(ks) == (\A i \in 1..Len(ks) : Holds(ks[i], "pk")) /\ New("pk", SumOf(ks)) /\ cached' = TRUE
SubKeys(k, ks) == /\ Holds(k, "pk") /\ \A i \in 1..Len(ks) : Holds(ks[i], "pk")
                  /\ New("pk", Val(k) - SumOf(ks)) /\ cached' = TRUE
AggSigs(ss) == /\ \A i \in 1..Len(ss) : Holds(ss[i], "sig")
               /\ New("sig", B!FSum([ i \in 1..Len(ss) |-> Val(ss[i]) ])) /\ UNCHANGED cached
Tamper(s, n) == Holds(s, "sig") /\ New("sig", B!FAdd(Val(s), B!FAtom(n, << "junk", "", << >>, << >> >>))) /\ UNCHANGED cached

\* buffers: what they say, in which form ("c" compressed, "u" both coordinates)
Encode(i, form) ==
  /\ i \in 1..Len(heap) /\ heap[i].live /\ heap[i].k \in {"sk", "pk", "sig"}
  /\ New("buf", << IF heap[i].k = "sk" THEN "c" ELSE form, heap[i].k, Val(i) >>) /\ UNCHANGED cached
IsZero(kind, v) == IF kind = "sig" THEN v = B!FZero ELSE v = 0
\* from both coordinates to the compressed form; the point at infinity has no coordinates to give
Compress(i, kind, ret) ==
  /\ Holds(i, "buf") /\ Val(i)[1] = "u" /\ Val(i)[2] = kind
  /\ ret = ~IsZero(kind, Val(i)[3])
  /\ IF ret THEN New("buf", << "c", kind, Val(i)[3] >>) /\ UNCHANGED cached ELSE Same
Decode(i, kind) ==
  /\ Holds(i, "buf") /\ Val(i)[1] = "c" /\ Val(i)[2] = (IF kind = "cached" THEN "pk" ELSE kind)
  /\ New(Val(i)[2], Val(i)[3]) /\ cached' = (cached \/ kind = "cached")
\* the points messages are hashed to, in the layout of that call
HashMode(which) == IF which \in {"direct", "attempt"} THEN "direct" ELSE which
HashForm(which) == IF which \in {"direct", "attempt"} THEN "affine" ELSE "projective"
Hashed(which, msg, extra, pop) ==
  IF which \in {"direct", "attempt"} THEN Signed(1, "direct", IF pop THEN POP ELSE SIG, msg, << >>)
  ELSE Signed(1, HashMode(which), SIG, msg, extra)
Hash(which, msg, extra, pop) ==
  New("buf", << HashForm(which), "hash", Hashed(which, msg, extra, pop) >>) /\ UNCHANGED cached
\* the halves of the hashes
Part(which, msg, n) == New("buf", << which, "part", IF which = "crh" THEN << msg >> ELSE << msg, n >> >>) /\ UNCHANGED cached
Release(i) == i \in 1..Len(heap) /\ heap[i].live /\ heap' = [heap EXCEPT ![i].live = FALSE] /\ UNCHANGED cached
=============================================================================
