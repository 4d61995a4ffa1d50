------------------------------ MODULE KeyCache ------------------------------
(* The public-key cache: a deserialisation memo and an incrementally        *)
(* maintained aggregate.  A key is the integer multiple of the generator it *)
(* is; the same key can arrive in several projective representations, which *)
(* make no difference.  An encoding is [v, kind]: the value it encodes and  *)
(* what is wrong with it, if anything.                                      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Cap                 \* entries the memo holds at most

VARIABLES members,           \* the set of keys of the last aggregation
          combined,          \* the running aggregate
          memo               \* set of encodings remembered
cachevars == << members, combined, memo >>

RECURSIVE SetSum(_)
SetSum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x + SetSum(s \ {x})
Range(q) == { q[i] : i \in 1..Len(q) }

CacheInit == members = {} /\ combined = 0 /\ memo = {}

GoodKinds == {"plain", "trailing", "zero"}
Decode(enc) == IF enc.kind \in GoodKinds THEN [st |-> "ok", v |-> enc.v] ELSE [st |-> "err", v |-> 0]

\* a remembered encoding is answered from the memo, any other is decoded and, if valid, remembered;
\* the oldest goes when the memo is full (which one that is does not matter to any answer)
Deserialize(enc, res) ==
  /\ res = Decode(enc)
  /\ IF enc \in memo \/ res.st = "err" THEN memo' = memo
     ELSE IF Cardinality(memo) < Cap THEN memo' = memo \cup {enc}
     ELSE \E old \in memo : memo' = (memo \ {old}) \cup {enc}
  /\ UNCHANGED << members, combined >>

\* only what changed since the last call is added and subtracted
Aggregate(keys, res) ==
  LET new == Range(keys) IN
  /\ combined' = combined - SetSum(members \ new) + SetSum(new \ members)
  /\ members' = new
  /\ res = combined'
  /\ UNCHANGED memo

Clear == members' = {} /\ combined' = 0 /\ memo' = {}

-----------------------------------------------------------------------------
\* what a user relies on: a cached answer is the answer a computation from scratch gives
Transparent == combined = SetSum(members)
Bounded == Cardinality(memo) <= Cap
OnlyValid == \A e \in memo : Decode(e).st = "ok"
=============================================================================
