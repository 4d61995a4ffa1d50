--------------------------- MODULE TraceBlsGadget ---------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE BlsGadget WITH pc <- "", keys <- << >>, bits <- << >>, pad <- 0, i <- 0, agg <- 0, absent <- 0, refused <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
Want(e) == CASE e.op = "verify" -> M!VerifyOk(e.keys, e.bits, e.pad, e.max, e.h, e.sig)
             [] e.op = "bitmap" -> M!BitmapOk(e.keys, e.bits, e.pad, e.max)
             [] e.op = "agg" -> M!AggOk(e.keys, e.bits, e.pad)
             [] e.op = "all" -> TRUE
             [] OTHER -> M!BatchOk(e.keys, e.hs, e.sig)
Sum(e) == CASE e.op \in {"bitmap", "agg"} -> M!Agg(e.keys, e.bits) [] e.op = "all" -> M!All(e.keys) [] OTHER -> 0
\* satisfied exactly when it should be (a refusal may be an unsatisfied constraint or an error at synthesis),
\* and the aggregate it hands on is the sum whoever proves
Ok(e) == /\ e.out # "panic"
         /\ (e.out = "sat") = Want(e)
         /\ e.out = "sat" => e.agg = Sum(e)
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN IF e.op = "tries" THEN TRUE ELSE Ok(e)
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
