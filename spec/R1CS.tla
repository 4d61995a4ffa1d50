-------------------------------- MODULE R1CS --------------------------------
(* Rank-one constraint systems as recorded from the real circuits, over a   *)
(* toy field: TLC explores every assignment, witness by witness, so what is *)
(* checked is what *any* prover can do, not what the honest code computes.  *)
EXTENDS Integers, Sequences

\* a linear combination is a sequence of <<coefficient, variable>>; assignment a holds variable v at a[v+1]
RECURSIVE EvalLc(_, _, _, _)
EvalLc(lc, i, a, p) == IF i > Len(lc) THEN 0 ELSE (lc[i][1] * a[lc[i][2] + 1] + EvalLc(lc, i + 1, a, p)) % p
Val(lc, a, p) == EvalLc(lc, 1, a, p)

RECURSIVE Bits2Int(_, _, _)
Bits2Int(b, i, w) == IF i > Len(b) THEN 0 ELSE b[i] * w + Bits2Int(b, i + 1, 2 * w)
Half(p) == (p - 1) \div 2

\* bits (least significant first) are booleans and the canonical representation of a number below p
Canonical(args, salt, a, p) ==
  LET v == [ i \in 1..Len(args) |-> Val(args[i], a, p) ]
      b == IF salt = 1 THEN Tail(v) ELSE v
  IN /\ \A i \in 1..Len(b) : b[i] \in {0, 1}
     /\ Bits2Int(b, 1, 1) < p
     /\ salt = 1 => Bits2Int(b, 1, 1) = v[1]

Holds(c, a, p) ==
  CASE c.t = "r1cs" -> (Val(c.args[1], a, p) * Val(c.args[2], a, p)) % p = Val(c.args[3], a, p)
    [] c.t = "le_half" -> Val(c.args[1], a, p) <= Half(p)
    [] c.t = "canonical_bits" -> Canonical(c.args, c.salt, a, p)

\* s.at[v+1]: the constraints whose last variable is v
Consistent(s, a) == \A i \in 1..Len(s.at[Len(a)]) : Holds(s.at[Len(a)][i], a, s.p)
Extends(s, a, x) == Consistent(s, Append(a, x))
Full(s, a) == Len(a) = s.nvars

\* some assignment of the remaining variables satisfies everything
RECURSIVE Completable(_, _)
Completable(s, a) == Full(s, a) \/ \E x \in 0..(s.p - 1) : Extends(s, a, x) /\ Completable(s, Append(a, x))
=============================================================================
