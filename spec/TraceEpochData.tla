---------------------------- MODULE TraceEpochData ----------------------------
(* The bits a circuit derives from one epoch block are those of its native  *)
(* encodings, whoever assigns the witnesses; its index follows; its hash is *)
(* the native one.                                                          *)
EXTENDS EpochEncoding, TLC, Json, IOUtils
FC == INSTANCE FieldConst
RealHalf == FC!FqHalf
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
vars == << evars, l >>

Same(e) == /\ e.innerbits = Encode("inner", e.blk)
           /\ e.extrabits = Encode("extra", e.blk)
           /\ e.firstbits = Encode("first", e.blk)
           /\ e.lastbits = Encode("last", e.blk)
Data(e) == e.out = "sat" /\ Same(e)
Num(y) == y[1] + (256 * y[2])
Next16(p, i) == Num(i) = 0 \/ Num(i) = Num(p) + 1
Hash(e) ==
  /\ e.out # "panic"
  /\ (e.out = "sat") = Next16(e.prev, e.blk.index)
  /\ e.out = "sat" =>
       /\ e.firstbits = Encode("first", e.blk) /\ e.lastbits = Encode("last", e.blk)
       /\ e.natinner = EncodeBytes("inner", e.blk) /\ e.natextra = EncodeBytes("extra", e.blk)
       /\ e.pt = e.natpt /\ e.crh = e.natcrh
       /\ e.xoflen = 512
\* numbers as whole field elements: what is above the encoded width must be zero
Top(y, w) == \A i \in ((w \div 8) + 1)..Len(y) : y[i] = 0
Small(b) == Top(b.index, IndexBits) /\ Top(b.mns, MnsBits) /\ Top(b.ee, EntropyBits) /\ Top(b.pe, EntropyBits)
Forged(e) == Small(e.blk) /\ Same(e)
\* somebody satisfied the index rule with this index
Cheated(e) == Next16(e.prev, e.blk.index)
Init == l \in 1..Parts /\ blk = 0 /\ kind = "" /\ at = 0 /\ out = << >>
Step == /\ l <= N
        /\ LET e == Trace[l] IN CASE e.op = "data" -> Data(e) [] e.op = "hash" -> Hash(e) [] e.op = "forged" -> Forged(e)
                                  [] e.op = "cheated" -> Cheated(e) [] e.op = "tries" -> e.n > 50
        /\ l' = l + Parts /\ UNCHANGED evars
End == l > N /\ UNCHANGED vars
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
