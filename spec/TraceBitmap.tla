----------------------------- MODULE TraceBitmap -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
B == INSTANCE Bitmap WITH bits <- << >>, counted <- 0, seen <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
\* an honest prover: the circuit is satisfied exactly by admissible bitmaps.  A limit of half the field or
\* more is not a number of validators: nothing admissible need be accepted, nothing may panic.
Honest(e) == CASE e.max.cls = "int" -> e.out = (IF B!AtMost(e.bits, e.value, e.max.v) THEN "sat" ELSE "unsat")
               [] e.max.cls = "belowhalf" -> e.out = "sat"
               [] OTHER -> e.out \in {"sat", "unsat"}
\* a dishonest one: whatever assignment satisfies the circuit, the bitmap is admissible
Cheat(e) == e.sat = 1 => B!AtMost(e.bits, e.value, e.max)
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "bitmap" -> Honest(e) [] e.op = "cheat" -> Cheat(e)
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
