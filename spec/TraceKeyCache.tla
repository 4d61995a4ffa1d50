--------------------------- MODULE TraceKeyCache ----------------------------
(* One session with a real PublicKeyCache per line.                         *)
EXTENDS KeyCache, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLES l, j
vars == << cachevars, l, j >>
TraceInit == CacheInit /\ l \in 1..Parts /\ j = 1
Op == Trace[l].ops[j]
Is(o) == l <= N /\ j <= Len(Trace[l].ops) /\ Op.op = o /\ j' = j + 1 /\ UNCHANGED l
\* the public fields: the aggregate, and a memo within bounds all of whose entries are right
Fields == Op.combined = combined' /\ Op.memo <= Cap /\ Op.wrong = 0
\* the memo's contents are checked by the driver entry by entry (wrong); the replacement policy is free
TDe == Is("de") /\ [st |-> Op.st, v |-> Op.out] = Decode([v |-> Op.v, kind |-> Op.kind])
       /\ UNCHANGED cachevars /\ Fields
TAgg == Is("agg") /\ Aggregate(Op.ks, Op.out) /\ Fields
TClear == Is("clear") /\ Clear /\ Op.memo = 0 /\ Fields
TDone == /\ l <= N /\ j = Len(Trace[l].ops) + 1 /\ members' = {} /\ combined' = 0 /\ memo' = {}
         /\ l' = l + Parts /\ j' = 1
TEnd == l > N /\ UNCHANGED vars
TraceNext == TDe \/ TAgg \/ TClear \/ TDone \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
