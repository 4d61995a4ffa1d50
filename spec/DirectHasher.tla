---------------------------- MODULE DirectHasher ----------------------------
(***************************************************************************)
(* The direct hasher: BLAKE2s as CRH and BLAKE2Xs as XOF, as a state       *)
(* machine with one action per primitive hash invocation.                  *)
(*                                                                         *)
(*   crh(domain, msg, len)  : one 32-byte digest that commits to len       *)
(*   xof(domain, seed, len) : ceil(len/32) nodes, node i under a parameter *)
(*                            block carrying i, len and the size of node i *)
(*   hash = xof(domain, crh(domain, msg, len), len)                        *)
(*                                                                         *)
(* H(param, msg) is the primitive: 32 bytes, of which the first            *)
(* param[1] are the digest.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS H(_, _),
          TrackUsed   \* keep the history variable `used' (off when validating traces)

B == INSTANCE Blake2s

VARIABLES pc,      \* "idle" | "crh" | "xof" | "done"
          req,     \* the request being served: [op, domain, len]
          seed,    \* what the next primitive call hashes
          emitted, \* output bytes produced so far
          last,    \* the bytes produced by the latest step
          err,     \* "" or the error reported
          used     \* parameter blocks used for this request
hvars == << pc, req, seed, emitted, last, err, used >>

MaxDomain == 8
MaxLen == 65535
NoReq == [op |-> "none", domain |-> << >>, len |-> 0]

NodeSize(len, i) == IF len - 32 * i >= 32 THEN 32 ELSE len - 32 * i
CrhParam(domain, len) == B!ParamBlock(32, 1, 1, 0, 0, len, 0, 0, domain)
XofParam(domain, len, i) == B!ParamBlock(NodeSize(len, i), 0, 0, 32, i, len, 0, 32, domain)

HInit == /\ pc = "idle" /\ req = NoReq /\ seed = << >> /\ emitted = 0
         /\ last = << >> /\ err = "" /\ used = {}

Call(op, domain, msg, len) ==
  /\ pc = "idle"
  /\ req' = [op |-> op, domain |-> domain, len |-> len]
  /\ emitted' = 0 /\ last' = << >> /\ used' = {}
  /\ IF Len(domain) > MaxDomain
     THEN pc' = "done" /\ err' = "DomainTooLarge" /\ seed' = << >>
     ELSE /\ pc' = IF op = "xof" THEN "xof" ELSE "crh"
          /\ err' = "" /\ seed' = msg

CrhStep ==
  /\ pc = "crh"
  /\ LET p == CrhParam(req.domain, req.len)
         d == H(p, seed)
     IN /\ used' = IF TrackUsed THEN used \cup {p} ELSE {}
        /\ IF req.op = "crh"
           THEN pc' = "done" /\ last' = d /\ emitted' = 32 /\ seed' = << >>
           ELSE pc' = "xof" /\ seed' = d /\ UNCHANGED << last, emitted >>
  /\ UNCHANGED << req, err >>

XofStep ==
  /\ pc = "xof" /\ emitted < req.len
  /\ LET i == emitted \div 32
         p == XofParam(req.domain, req.len, i)
         d == SubSeq(H(p, seed), 1, NodeSize(req.len, i))
     IN /\ used' = IF TrackUsed THEN used \cup {p} ELSE {}
        /\ last' = d
        /\ emitted' = emitted + Len(d)
  /\ UNCHANGED << pc, req, seed, err >>

XofEnd == /\ pc = "xof" /\ emitted >= req.len
          /\ pc' = "done" /\ seed' = << >> /\ last' = << >>
          /\ UNCHANGED << req, emitted, err, used >>

Return == /\ pc = "done"
          /\ pc' = "idle" /\ req' = NoReq /\ seed' = << >> /\ emitted' = 0
          /\ last' = << >> /\ err' = "" /\ used' = {}

HNext(Requests) ==
  \/ \E r \in Requests : Call(r.op, r.domain, r.msg, r.len)
  \/ CrhStep \/ XofStep \/ XofEnd \/ Return

-----------------------------------------------------------------------------
\* Properties of the design.

\* exactly the requested number of bytes, or an error, and nothing else
ExactLength ==
  pc = "done" /\ err = "" => emitted = (IF req.op = "crh" THEN 32 ELSE req.len)
RejectsLongDomain ==
  pc = "done" => (err = "DomainTooLarge") = (Len(req.domain) > MaxDomain)
NothingOnError == err # "" => emitted = 0
\* no two primitive calls of one request share a parameter block
NoParamReuse ==
  pc = "done" /\ err = "" =>
    Cardinality(used) = (IF req.op = "xof" THEN 0 ELSE 1)
                      + (IF req.op = "crh" THEN 0 ELSE (req.len + 31) \div 32)
\* the XOF never hashes the caller's message directly under "hash"
NodeBound == pc = "xof" => emitted <= req.len

=============================================================================
