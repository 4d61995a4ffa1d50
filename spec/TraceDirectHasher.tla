-------------------------- MODULE TraceDirectHasher --------------------------
(* Validates recorded calls of the real hasher against DirectHasher with    *)
(* BLAKE2s as the primitive.  Calls are independent, so the trace is dealt  *)
(* to Parts parallel chains (k, k + Parts, ...); a call the specification   *)
(* does not explain is a deadlock at its index l.                           *)
EXTENDS DirectHasher, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
VARIABLE l
vars == << hvars, l >>

N == Len(Trace)
Conc(p, m) == B!HashState(p, m)

TraceInit == /\ HInit
             /\ l \in 1..Parts
Ev == Trace[l]

TCall == /\ pc = "idle" /\ l <= N
         /\ Call(Ev.op, Ev.domain, Ev.msg, Ev.len)
         /\ UNCHANGED l
\* the CRH digest is visible only for a "crh" call
TCrh == /\ CrhStep
        /\ req.op = "crh" => Ev.st = "ok" /\ Ev.out = last'
        /\ UNCHANGED l
TXof == /\ XofStep
        /\ Ev.st = "ok" /\ Len(Ev.out) >= emitted'
        /\ SubSeq(Ev.out, emitted + 1, emitted') = last'
        /\ UNCHANGED l
TXofEnd == XofEnd /\ UNCHANGED l
TReturn == /\ pc = "done"
           /\ IF err # "" THEN Ev.st = "err" /\ Ev.err = err /\ Ev.errlen = Len(Ev.domain)
                          ELSE Ev.st = "ok" /\ Len(Ev.out) = emitted
           /\ Return
           /\ l' = l + Parts
TEnd == pc = "idle" /\ l > N /\ UNCHANGED vars

TraceNext == TCall \/ TCrh \/ TXof \/ TXofEnd \/ TReturn \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
