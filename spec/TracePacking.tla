---------------------------- MODULE TracePacking ----------------------------
(* Recorded packings: native, in circuits of both fields, and the hash      *)
(* circuits whose results they publish.  Elements come as bits, least       *)
(* significant first.                                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
B2 == INSTANCE Blake2s
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
Cap(f) == IF f = "fq" THEN 376 ELSE 252
Least(a, b) == IF a < b THEN a ELSE b
Rev(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Cut(s, i, c) == SubSeq(s, (i - 1) * c + 1, Least(i * c, Len(s)))
NumChunks(n, c) == (n + c - 1) \div c
\* the element as bits, least significant first, of a field with one more bit than the capacity
Elem(s, w) == LET r == Rev(s) IN [ i \in 1..w |-> IF i <= Len(r) THEN r[i] ELSE 0 ]
Packing(s, c, w) == [ i \in 1..NumChunks(Len(s), c) |-> Elem(Cut(s, i, c), w) ]
Width(f) == Cap(f) + 1
\* the bits n elements hold, c in each: only the low bits count
RECURSIVE Held(_, _, _, _)
Held(e, n, c, i) == IF n <= 0 THEN << >> ELSE Rev(SubSeq(e[i], 1, Least(n, c))) \o Held(e, n - c, c, i + 1)

SigDomain == << 85, 76, 102, 111, 114, 120, 111, 102 >>   \* "ULforxof"
OutDomain == << 85, 76, 102, 111, 114, 111, 117, 116 >>   \* "ULforout"
BitAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Bytes(b) == [ i \in 1..((Len(b) + 7) \div 8) |->
  LET o == 8 * (i - 1) IN BitAt(b, o+1) + 2*BitAt(b, o+2) + 4*BitAt(b, o+3) + 8*BitAt(b, o+4)
                        + 16*BitAt(b, o+5) + 32*BitAt(b, o+6) + 64*BitAt(b, o+7) + 128*BitAt(b, o+8) ]
Bits(y) == [ i \in 1..(8 * Len(y)) |-> (y[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2 ]
Node(msg, i) == B2!HashState(B2!ParamBlock(32, 0, 0, 32, i, 64, 0, 32, SigDomain), msg)
Xof(bits) == LET m == TLCEval(Bytes(bits)) IN TLCEval(Bits(Node(m, 0) \o Node(m, 1)))
Out(bits) == LET m == TLCEval(Bytes(Rev(bits))) IN TLCEval(Bits(B2!HashState(B2!ParamBlock(32, 1, 1, 0, 0, 0, 0, 0, OutDomain), m)))

Native(e) == e.out = "ok" /\ e.elems = Packing(e.bits, Cap(e.field), Width(e.field))
Circ(e) == e.out = "sat" /\ e.vals = Packing(e.bits, e.size, Width(e.field))
           /\ (e.input = 1 => e.inst = e.vals) /\ (e.input = 0 => e.inst = << >>)
\* whatever satisfies the packing circuit
Packed(e) == Len(e.vals) = NumChunks(Len(e.bits), e.size) /\ Held(e.vals, Len(e.bits), e.size, 1) = e.bits

\* messages of 384 bits, their XOFs of 512, as public inputs
RECURSIVE Xofs(_, _)
Xofs(s, k) == IF k > Len(s) THEN << >> ELSE Xof(SubSeq(s, k, k + 383)) \o Xofs(s, k + 384)
Msgs(e) == [ i \in 1..(384 * Len(e.msgs)) |-> e.msgs[((i - 1) \div 384) + 1][((i - 1) % 384) + 1] ]
H2b(e) == LET m == TLCEval(Msgs(e)) IN
  e.out = "sat" /\ e.inst = Packing(m, 252, 253) \o Packing(TLCEval(Xofs(m, 1)), 252, 253)
H2bForged(e) ==
  LET a == NumChunks(384 * e.n, 252) m == TLCEval(Held(e.inst, 384 * e.n, 252, 1)) IN
  /\ Len(e.inst) = a + NumChunks(512 * e.n, 252)
  /\ Held(e.inst, 512 * e.n, 252, a + 1) = Xofs(m, 1)
\* two hashes under the output domain
Edges(e) == e.out = "sat" /\ e.inst = Packing(Out(e.a) \o Out(e.b), 376, 377)
EdgesForged(e) == Len(e.inst) = 2 /\ Held(e.inst, 512, 376, 1) = Out(e.a) \o Out(e.b)
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN
           CASE e.op = "native" -> Native(e) [] e.op = "circ" -> Circ(e) [] e.op = "packed" -> Packed(e)
             [] e.op = "h2b" -> H2b(e) [] e.op = "h2bforged" -> H2bForged(e)
             [] e.op = "edges" -> Edges(e) [] e.op = "edgesforged" -> EdgesForged(e) [] e.op = "tries" -> e.n > 100
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
