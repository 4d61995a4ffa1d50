--------------------------- MODULE TraceComposite ---------------------------
(* Calls of the real composite hasher.  A crh event carries the digits the  *)
(* driver combined its own generators with (ref: the abscissa of that       *)
(* combination); the specification says which digits are the right ones.    *)
(* The XOF half is the direct hasher's, step by step.                       *)
EXTENDS DirectHasher, TLC, Json, IOUtils
CONSTANTS Window, Segments
BH == INSTANCE BoweHopwood
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
VARIABLE l
vars == << hvars, l >>
N == Len(Trace)
Conc(p, m) == B!HashState(p, m)
TraceInit == HInit /\ l \in 1..Parts
Ev == Trace[l]
\* the domain and the output length make no difference to the CRH
TCrh == /\ pc = "idle" /\ l <= N /\ Ev.op = "crh" /\ BH!Fits(Ev.msg)
        /\ Ev.st = "ok" /\ Ev.out = Ev.ref /\ Ev.digits = BH!Digits(Ev.msg) /\ Len(Ev.out) = 48
        /\ l' = l + Parts /\ UNCHANGED hvars
\* a message the windows cannot hold is never hashed
TCrhLong == /\ pc = "idle" /\ l <= N /\ Ev.op = "crh" /\ ~BH!Fits(Ev.msg)
            /\ Ev.st # "ok" /\ l' = l + Parts /\ UNCHANGED hvars
\* xof is the direct hasher's; hash is xof of the crh (carried in the event as mid, itself a crh event)
TXofCall == /\ pc = "idle" /\ l <= N /\ Ev.op \in {"xof", "hash"}
            /\ Ev.op = "hash" => Ev.mid = Ev.ref /\ Ev.digits = BH!Digits(Ev.msg)
            /\ Call("xof", Ev.domain, IF Ev.op = "hash" THEN Ev.mid ELSE Ev.msg, Ev.len)
            /\ UNCHANGED l
TXof == /\ XofStep /\ Ev.st = "ok" /\ Len(Ev.out) >= emitted'
        /\ SubSeq(Ev.out, emitted + 1, emitted') = last' /\ UNCHANGED l
TXofEnd == XofEnd /\ UNCHANGED l
TReturn == /\ pc = "done"
           /\ IF err # "" THEN Ev.st = "err" /\ Ev.err = err ELSE Ev.st = "ok" /\ Len(Ev.out) = emitted
           /\ Return /\ l' = l + Parts
TEnd == pc = "idle" /\ l > N /\ UNCHANGED vars
TraceNext == TCrh \/ TCrhLong \/ TXofCall \/ TXof \/ TXofEnd \/ TReturn \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
