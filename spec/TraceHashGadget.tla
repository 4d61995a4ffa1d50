-------------------------- MODULE TraceHashGadget --------------------------
(* Recorded circuits: XOF bits are the bits of BLAKE2Xs, CRH bits those of  *)
(* the composite CRH, the point is the one they decode to.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
B2 == INSTANCE Blake2s
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l

SigDomain == << 85, 76, 102, 111, 114, 120, 111, 102 >>   \* "ULforxof"
BitAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Bytes(b) == [ i \in 1..((Len(b) + 7) \div 8) |->
  LET o == 8 * (i - 1) IN BitAt(b, o+1) + 2*BitAt(b, o+2) + 4*BitAt(b, o+3) + 8*BitAt(b, o+4)
                        + 16*BitAt(b, o+5) + 32*BitAt(b, o+6) + 64*BitAt(b, o+7) + 128*BitAt(b, o+8) ]
Bits(y) == [ i \in 1..(8 * Len(y)) |-> (y[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2 ]
\* n nodes of 32 bytes
RECURSIVE Xof(_, _, _, _)
Xof(pers, msg, n, i) ==
  IF i = n THEN << >>
  ELSE B2!HashState(B2!ParamBlock(32, 0, 0, 32, i, 32 * n, 0, 32, pers), msg) \o Xof(pers, msg, n, i + 1)

H2B(e) == e.out = "sat" /\ e.xof = Bits(Xof(e.pers, Bytes(e.msg), IF e.gen = 1 THEN e.hash \div 256 ELSE 2, 0))

XofOf(e) == Bits(Xof(SigDomain, << e.counter >> \o e.extra \o Bytes(e.crhfact), 2, 0))
Pt(e, xof) == e.cand.pts[xof[e.sign + 1] + 1]
Htg(e) ==
  LET x == XofOf(e) IN
  /\ e.cand.x = SubSeq(x, 1, 377)
  /\ IF Pt(e, x) = "" THEN e.out # "sat" /\ e.out # "panic"
     ELSE e.out = "sat" /\ e.crh = e.crhfact /\ e.xof = x /\ e.pt = Pt(e, x)
  \* the native hash is the first counter that works
  /\ e.counter = e.native.attempt => e.out = "sat" /\ e.pt = e.native.pt
  /\ e.counter < e.native.attempt => e.out # "sat"
\* whatever satisfies the circuit
Forged(e) ==
  /\ e.crh = e.crhfact
  /\ e.gen = 1 => e.xof = XofOf(e)
  /\ e.cand.x = SubSeq(e.xof, 1, 377)
  /\ e.pt = Pt(e, e.xof) /\ e.pt # ""
Tries(e) == e.n > 100
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "h2b" -> H2B(e) [] e.op = "htg" -> Htg(e) [] e.op = "forged" -> Forged(e) [] e.op = "tries" -> Tries(e)
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
