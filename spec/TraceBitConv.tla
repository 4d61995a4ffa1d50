----------------------------- MODULE TraceBitConv -----------------------------
EXTENDS BitConv, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
Want(e) == CASE e.op = "be2le" -> BitsBEtoBytesLE(e.in)
             [] e.op = "le2le" -> BitsLEtoBytesLE(e.in)
             [] e.op = "b2be"  -> BytesLEtoBitsBE(e.in, e.take)
             [] e.op = "b2le"  -> BytesLEtoBitsLE(e.in, e.take)
Init == l \in 1..Parts
Convert == /\ l <= N
           /\ Trace[l].st = "ok" /\ Trace[l].out = Want(Trace[l])
           /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Convert \/ End]_l
=============================================================================
