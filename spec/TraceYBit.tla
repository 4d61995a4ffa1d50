------------------------------ MODULE TraceYBit ------------------------------
EXTENDS FieldConst, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
HalfOfField(f) == IF f = "fq" THEN FqHalf ELSE FrHalf
Over(y, f) == IF Greater(y, HalfOfField(f)) THEN 1 ELSE 0
Want(e) == CASE e.gadget = "is_eq_zero" -> IF IsZero(e.y[1]) THEN 1 ELSE 0
             [] e.gadget \in {"normalize", "g1"} -> Over(e.y[1], e.field)
             [] e.gadget = "g2" -> IF IsZero(e.y[2]) THEN Over(e.y[1], e.field) ELSE Over(e.y[2], e.field)
\* y: the coordinate(s) as bits, most significant first
Honest(e) == e.out = "sat" /\ e.bit = Want(e)
Cheat(e) == e.sat = 1 => e.bit = Want(e)
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "bit" -> Honest(e) [] e.op = "cheat" -> Cheat(e)
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
