-------------------------------- MODULE YBit --------------------------------
(* The sign bit of a coordinate, as point compression defines it, over any  *)
(* odd modulus: numbers are compared with half of it.                       *)
EXTENDS Integers
Half(p) == (p - 1) \div 2
Over(y, p) == IF y > Half(p) THEN 1 ELSE 0
\* quadratic extension: the second coordinate decides unless it is zero
Over2(c0, c1, p) == IF c1 # 0 THEN Over(c1, p) ELSE Over(c0, p)
Neg(y, p) == (p - y) % p
=============================================================================
