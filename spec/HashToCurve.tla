----------------------------- MODULE HashToCurve -----------------------------
(***************************************************************************)
(* Try-and-increment hashing to a curve point, both variants.              *)
(*                                                                         *)
(*  legacy: candidate(c) = XOF(domain, CRH(domain, c || extra || msg))     *)
(*  cip22 : candidate(c) = XOF(domain, c || extra || CRH(domain, msg))     *)
(*                                                                         *)
(* The first c in 0..NumTries-1 whose candidate decodes to a point that    *)
(* the cofactor does not kill is the answer.  A failing hasher fails the   *)
(* call.  The specification follows data flow, not call order: digests may *)
(* be computed at any time and any number of times.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT NumTries

VARIABLES st,     \* "idle" | "trying" | "found" | "failed" | "hasherr"
          job,    \* [mode, domain, msg, extra, len]
          c,      \* the counter being tried
          digests \* CRH digests known so far: set of <<input, digest>>
h2cvars == << st, job, c, digests >>

NoJob == [mode |-> "none", domain |-> << >>, msg |-> << >>, extra |-> << >>, len |-> 0]
H2CInit == st = "idle" /\ job = NoJob /\ c = 0 /\ digests = {}

\* bytes requested from the hasher for an encoding of n bytes: whole 32-byte blocks
HashLength(n) == 32 * ((n + 31) \div 32)

Start(mode, domain, msg, extra, nbytes) ==
  /\ st = "idle"
  /\ st' = "trying" /\ c' = 0 /\ digests' = {}
  /\ job' = [mode |-> mode, domain |-> domain, msg |-> msg, extra |-> extra, len |-> HashLength(nbytes)]

CrhInput(k) == IF job.mode = "legacy" THEN << k >> \o job.extra \o job.msg ELSE job.msg

\* a CRH call: it can only be of the current attempt's input
Digest(domain, input, len, out) ==
  /\ st = "trying"
  /\ domain = job.domain /\ len = job.len
  /\ c < NumTries
  /\ input = CrhInput(c)
  /\ digests' = digests \cup { << input, out >> }
  /\ UNCHANGED << st, job, c >>

IsSeed(seed, k) ==
  \E d \in digests : /\ d[1] = CrhInput(k)
                     /\ seed = IF job.mode = "legacy" THEN d[2] ELSE << k >> \o job.extra \o d[2]

\* An XOF call.  kind: "good" | "nopoint" | "torsion" (killed by the cofactor)
Candidate(domain, seed, len, kind) ==
  /\ st = "trying" /\ c < NumTries
  /\ domain = job.domain /\ len = job.len
  /\ IsSeed(seed, c)
  /\ IF kind = "good" THEN st' = "found" /\ c' = c ELSE st' = "trying" /\ c' = c + 1
  /\ UNCHANGED << job, digests >>

HasherError(domain) ==
  /\ st = "trying" /\ c < NumTries /\ domain = job.domain
  /\ st' = "hasherr" /\ UNCHANGED << job, c, digests >>

Exhausted == st = "trying" /\ c = NumTries /\ st' = "failed" /\ UNCHANGED << job, c, digests >>

Finish == /\ st \in {"found", "failed", "hasherr"}
          /\ st' = "idle" /\ job' = NoJob /\ c' = 0 /\ digests' = {}
=============================================================================
