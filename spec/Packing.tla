------------------------------- MODULE Packing -------------------------------
(* Bits packed into field elements, Capacity at a time: each element is the *)
(* number its bits spell, most significant first; a shorter last chunk is a *)
(* smaller number.  The packer reads bits one at a time.                    *)
EXTENDS Integers, Sequences
CONSTANT Capacity
Least(a, b) == IF a < b THEN a ELSE b
Cut(s, i, c) == SubSeq(s, (i - 1) * c + 1, Least(i * c, Len(s)))
NumChunks(n, c) == (n + c - 1) \div c
RECURSIVE Spell(_, _)
Spell(b, acc) == IF b = << >> THEN acc ELSE Spell(Tail(b), 2 * acc + b[1])
Pack(s, c) == [ i \in 1..NumChunks(Len(s), c) |-> Spell(Cut(s, i, c), 0) ]
\* the k bits of a number, most significant first
BitsOf(v, k) == [ j \in 1..k |-> (v \div (2 ^ (k - j))) % 2 ]
RECURSIVE UnpackFrom(_, _, _, _)
UnpackFrom(e, n, c, i) == IF n <= 0 THEN << >> ELSE BitsOf(e[i], Least(n, c)) \o UnpackFrom(e, n - c, c, i + 1)
Unpack(e, n, c) == UnpackFrom(e, n, c, 1)

VARIABLES fed, acc, cnt, done
pvars == << fed, acc, cnt, done >>
PInit == fed = << >> /\ acc = 0 /\ cnt = 0 /\ done = << >>
Take(b) == /\ fed' = Append(fed, b)
           /\ IF cnt + 1 = Capacity THEN acc' = 0 /\ cnt' = 0 /\ done' = Append(done, 2 * acc + b)
              ELSE acc' = 2 * acc + b /\ cnt' = cnt + 1 /\ UNCHANGED done
Packed == IF cnt = 0 THEN done ELSE Append(done, acc)
=============================================================================
