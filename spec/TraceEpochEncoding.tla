-------------------------- MODULE TraceEpochEncoding --------------------------
(* Real blocks: every encoding, bit for bit; the hashes published for first *)
(* and last blocks; the point that is signed.                               *)
EXTENDS EpochEncoding, TLC, Json, IOUtils
B2 == INSTANCE Blake2s
FC == INSTANCE FieldConst
RealHalf == FC!FqHalf
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
SignableBits == 3 * 93 * 560   \* what the hash the point is derived from can take
VARIABLE l
vars == << evars, l >>
OutDomain == << 85, 76, 102, 111, 114, 111, 117, 116 >>   \* "ULforout"
HashBits(bytes) == UnpackLE(B2!HashState(B2!ParamBlock(32, 1, 1, 0, 0, 0, 0, 0, OutDomain), bytes), 256)

Enc(e) ==
  LET b == e.blk IN
  /\ e.st = "ok"
  /\ e.plain = EncodeBytes("plain", b)
  /\ e.first = EncodeBytes("first", b)
  /\ e.inner = EncodeBytes("inner", b)
  /\ e.extra = EncodeBytes("extra", b)
  \* the driver's reference point is the CIP22 hash of (inner, extra)
  /\ e.g1 = e.g1ref
  /\ (e.g1 # "") = (8 * Len(e.inner) <= SignableBits)
  /\ e.h1 = HashBits(e.first)
  /\ IF e.aggzero = 1 THEN TRUE   \* an identity has no encoding worth specifying
     ELSE /\ e.lastagg = EncodeBytes("lastagg", b)
          /\ e.h2 = HashBits(e.lastagg)
          /\ e.h12 = e.h1 \o e.h2
\* through the C interface: the same bytes, the same block, and no block with a key that is none
Foreign(e) ==
  /\ e.ret /\ e.same /\ e.refused
  /\ e.plain = EncodeBytes("plain", e.blk)
  /\ e.inner = EncodeBytes("inner", e.blk)
  /\ e.extra = EncodeBytes("extra", e.blk)
Key(e) == e.st = "ok" /\ e.bits = KeyBits(e.key)
Init == l \in 1..Parts /\ blk = 0 /\ kind = "" /\ at = 0 /\ out = << >>
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "enc" -> Enc(e) [] e.op = "key" -> Key(e) [] e.op = "ffi" -> Foreign(e)
        /\ l' = l + Parts /\ UNCHANGED evars
End == l > N /\ UNCHANGED vars
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
