----------------------------- MODULE HashGadget -----------------------------
(* Hashing to the curve inside a circuit: the prover supplies a counter and *)
(* the coordinates of a point, the circuit recomputes CRH and XOF and ties  *)
(* the point to the XOF bits: its abscissa is the low bits, its ordinate's  *)
(* sign the sign bit, and the output is the cofactor multiple.              *)
(* Written over an abstract curve: Pts(x) is the set of ordinates of        *)
(* abscissa x, Big(y) tells the larger ordinate, over a field of size P.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, B   \* y^2 = x^3 + B over the integers modulo the prime P

Half == (P - 1) \div 2
Big(y) == IF y > Half THEN 1 ELSE 0
Fld == 0..(P - 1)
Pow3(x) == (((x * x) % P) * x) % P
Ords(x) == { y \in Fld : (y * y) % P = (Pow3(x) + B) % P }
Inv(z) == CHOOSE i \in Fld : (i * z) % P = 1
NoPoint == << >>

\* what decoding (x, sign) gives natively
Decode(x, sign) ==
  IF x >= P THEN NoPoint
  ELSE LET S == { y \in Ords(x) : y = 0 \/ Big(y) = sign } IN IF S = {} THEN NoPoint ELSE << x, CHOOSE y \in S : TRUE >>

VARIABLES pc, x, sign, claim, out
gvars == << pc, x, sign, claim, out >>

GInit(Xs) == pc = "claim" /\ x \in Xs /\ sign \in {0, 1} /\ claim = << >> /\ out = NoPoint
\* projective coordinates are the prover's choice
Claim(X, Y, Z) ==
  /\ pc = "claim" /\ claim' = << X, Y, Z >> /\ pc' = "check" /\ UNCHANGED << x, sign, out >>
OnCurve(c) == LET Z2 == (c[3] * c[3]) % P IN
  (c[3] * ((c[2] * c[2]) % P)) % P = (Pow3(c[1]) + ((B * ((Z2 * c[3]) % P)) % P)) % P
Affine(c) == IF c[3] = 0 THEN << "infinity" >> ELSE << (c[1] * Inv(c[3])) % P, (c[2] * Inv(c[3])) % P >>
Check ==
  /\ pc = "check"
  /\ IF OnCurve(claim) /\ claim[3] = 1 /\ claim[1] = x /\ Big(claim[2]) = sign
     THEN pc' = "accepted" /\ out' = Affine(claim)
     ELSE pc' = "rejected" /\ out' = NoPoint
  /\ UNCHANGED << x, sign, claim >>
=============================================================================
