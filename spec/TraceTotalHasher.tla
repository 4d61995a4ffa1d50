-------------------------- MODULE TraceTotalHasher --------------------------
EXTENDS TotalHasher, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
TraceInit == l \in 1..Parts
Ev == Trace[l]
TCall == /\ l <= N
         /\ [st |-> Ev.st, outlen |-> Ev.outlen, err |-> Ev.err, errarg |-> Ev.errarg]
              = Outcome(Ev.hasher, Ev.op, Ev.domain, Ev.msg, Ev.len)
         /\ Ev.again
         /\ l' = l + Parts
TEnd == l > N /\ UNCHANGED l
TraceNext == TCall \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
