------------------------------ MODULE BlsGadget ------------------------------
(* The BLS verification circuit over formal group elements: a point is its  *)
(* integer multiple of the generator.  The circuit walks the validators,    *)
(* refuses the padding key where a bit is set, sums the keys that signed,   *)
(* counts the ones that did not, and finally pairs.                         *)
EXTENDS Integers, Sequences

VARIABLES pc, keys, bits, pad, i, agg, absent, refused
bvars == << pc, keys, bits, pad, i, agg, absent, refused >>

BgInit(ks, bs, p) ==
  /\ pc = "walk" /\ keys = ks /\ bits = bs /\ pad = p /\ i = 1 /\ agg = 0 /\ absent = 0 /\ refused = FALSE
Walk ==
  /\ pc = "walk" /\ i <= Len(keys)
  /\ IF bits[i] = 1
     THEN agg' = agg + keys[i] /\ refused' = (refused \/ keys[i] = pad) /\ UNCHANGED absent
     ELSE absent' = absent + 1 /\ UNCHANGED << agg, refused >>
  /\ i' = i + 1 /\ UNCHANGED << pc, keys, bits, pad >>
Walked == pc = "walk" /\ i > Len(keys) /\ pc' = "walked" /\ UNCHANGED << keys, bits, pad, i, agg, absent, refused >>
BgNext == Walk \/ Walked

\* declarative: what the machine must compute
RECURSIVE SumSet(_, _, _)
SumSet(ks, bs, k) == IF k = 0 THEN 0 ELSE SumSet(ks, bs, k - 1) + bs[k] * ks[k]
Agg(ks, bs) == SumSet(ks, bs, Len(ks))
Zeros(bs) == LET RECURSIVE Z(_) Z(k) == IF k = 0 THEN 0 ELSE Z(k - 1) + 1 - bs[k] IN Z(Len(bs))
NoPad(ks, bs, p) == \A k \in 1..Len(ks) : bs[k] = 1 => ks[k] # p
All(ks) == Agg(ks, [ k \in 1..Len(ks) |-> 1 ])
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE Dot(a, b, k - 1) + a[k] * b[k]

\* verdicts
AggOk(ks, bs, p) == NoPad(ks, bs, p)
BitmapOk(ks, bs, p, max) == Zeros(bs) <= max /\ NoPad(ks, bs, p)
\* one aggregate signature: sig = h * sum of the signers' keys, which must not vanish
VerifyOk(ks, bs, p, max, h, sig) == BitmapOk(ks, bs, p, max) /\ Agg(ks, bs) # 0 /\ sig = h * Agg(ks, bs)
\* several messages at once
BatchOk(ks, hs, sig) == (\A k \in 1..Len(ks) : ks[k] # 0) /\ sig = Dot(ks, hs, Len(ks))
=============================================================================
