--------------------------- MODULE TraceEpochChain ---------------------------
(* Real chains: the circuit accepts exactly the model's, whoever assigns    *)
(* the witnesses, and publishes the hashes of the first and last block.     *)
EXTENDS EpochEncoding, TLC, Json, IOUtils
CONSTANTS PadKey, MaxIndex, Capacity
B2 == INSTANCE Blake2s
FC == INSTANCE FieldConst
RealHalf == FC!FqHalf
M == INSTANCE EpochChain WITH pc <- "", first <- 0, chain <- << >>, at <- 0, sig <- 0, st <- 0, eb <- FALSE, coefs <- << >>, dummies <- 0, ok <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
vars == << evars, l >>
OutDomain == << 85, 76, 102, 111, 114, 111, 117, 116 >>   \* "ULforout"
HashBits(bytes) == UnpackLE(B2!HashState(B2!ParamBlock(32, 1, 1, 0, 0, 0, 0, 0, OutDomain), bytes), 256)
\* chunks of Capacity bits, each the number it spells most significant bit first
NumBE(c) == Rev(c) \o Zeros(CoordBits - Len(c))
RECURSIVE ChunksFrom(_, _)
ChunksFrom(s, k) == IF k > Len(s) THEN << >>
                    ELSE << NumBE(SubSeq(s, k, IF k + Capacity - 1 < Len(s) THEN k + Capacity - 1 ELSE Len(s))) >> \o ChunksFrom(s, k + Capacity)
Chunks(s) == ChunksFrom(s, 1)
Hashed(kind_, b) == LET y == TLCEval(EncodeBytes(kind_, b)) IN TLCEval(HashBits(y))
Published(f, b) == LET s == TLCEval(Hashed("first", f) \o Hashed("lastagg", b)) IN Chunks(s)
\* what is above a chunk's bits is the prover's own affair: the verifier computes the inputs itself
Low(e, k, n) == SubSeq(e.inst[k], 1, n)
Publishes(e) == LET p == TLCEval(Published(e.firstblk, e.lastblk)) IN
  /\ Len(e.inst) = Len(p)
  /\ Low(e, 1, Capacity) = SubSeq(p[1], 1, Capacity)
  /\ Low(e, 2, 512 - Capacity) = SubSeq(p[2], 1, 512 - Capacity)
PublishesExactly(e) == Published(e.firstblk, e.lastblk) = e.inst
Chain(e) == /\ e.out # "panic" \/ e.ups = << >>
            /\ (e.out = "sat") = M!Accept(e.first, e.ups, e.sig)
            /\ e.out = "sat" => PublishesExactly(e)
Forged(e) == /\ e.wide = 0
             /\ M!Accept(e.first, e.ups, e.sig)
             /\ Publishes(e)
Init == l \in 1..Parts /\ blk = 0 /\ kind = "" /\ at = 0 /\ out = << >>
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "chain" -> Chain(e) [] e.op = "forged" -> Forged(e) [] e.op = "tries" -> e.n > 50 \/ e.lost > 0
        /\ l' = l + Parts /\ UNCHANGED evars
End == l > N /\ UNCHANGED vars
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
