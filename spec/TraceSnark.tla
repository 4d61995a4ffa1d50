------------------------------ MODULE TraceSnark ------------------------------
(* Real setups, proofs and verdicts answer as the specification does.       *)
EXTENDS Snark, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
\* key 0 is the prover's; proof 0 is the one made
Par(e) == [ id |-> 0, nv |-> e.nv, max |-> e.max ]
Made(e) == ProofOf(Par(e), e.nv, e.first, e.ups, e.sig, e.arg)
Expected(q, p) == IF q.proof = 0 /\ Verifies(q.vk, q.first, q.last, p) THEN "ok" ELSE "failed"
\* bytes that say less are refused; bytes after the end are not looked at
Cut(e, p, c) == c.answer = IF c.what = "long" THEN Expected(e.asks[c.of], p) ELSE "failed"
Proved(e) == LET p == TLCEval(Made(e)) IN
  /\ e.out = "ok" /\ Len(e.answers) = Len(e.asks)
  /\ \A i \in 1..Len(e.asks) : e.answers[i] = Expected(e.asks[i], p)
  /\ "cuts" \in DOMAIN e => \A i \in 1..Len(e.cuts) : Cut(e, p, e.cuts[i])
Init == l \in 1..Parts
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "prove" -> Proved(e) [] e.op = "junkhelper" -> e.out = "unsat"
        /\ l' = l + Parts
End == l > N /\ UNCHANGED l
Spec == Init /\ [][Step \/ End]_l
=============================================================================
