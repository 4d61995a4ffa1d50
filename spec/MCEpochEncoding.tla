--------------------------- MODULE MCEpochEncoding ---------------------------
EXTENDS EpochEncoding, TLC, Json, IOUtils, SequencesExt
\* a toy key space: the field of 5 elements, 3-bit coordinates
B3(n) == << (n \div 4) % 2, (n \div 2) % 2, n % 2 >>
Key(a, b, c, d) == [x0 |-> B3(a), x1 |-> B3(b), y0 |-> B3(c), y1 |-> B3(d)]
Half5 == B3(2)
KeysU == { Key(0, 1, 0, 2), Key(0, 1, 0, 3), Key(1, 0, 2, 0), Key(1, 0, 3, 0) }   \* two abscissae, both signs each
Pad == Key(1, 0, 2, 0)
KeySeqs == { << >> } \cup { << a >> : a \in KeysU } \cup { << a, b >> : a \in KeysU, b \in KeysU }
Blks == { [index |-> << i >>, round |-> << r >>, mns |-> << m >>, ee |-> e, pe |-> p, maxv |-> v, keys |-> k, pad |-> Pad, agg |-> a] :
            i \in 0..2, r \in 0..1, m \in 0..2, e \in { << >>, << 0 >>, << 2 >> }, p \in { << >>, << 1 >> }, v \in 0..3, k \in KeySeqs, a \in { Pad, Key(4, 4, 4, 4) } }
Init == EInit(Blks)
Next == Write \/ (Written /\ UNCHANGED evars)
Spec == Init /\ [][Next]_evars

StepwiseIsWhole == Written => out = Encode(kind, blk)
\* the reader recovers every field and every key (padding included), so the encoding has no second reading
ReadsBack == Written =>
  LET r == Read(kind, out)
      ks == CASE kind = "extra" -> << >> [] kind = "plain" -> blk.keys [] kind = "lastagg" -> Append(Padded(blk), blk.agg) [] OTHER -> Padded(blk)
  IN /\ r.fields = [ i \in 1..Len(Fixed(kind)) |-> << Fixed(kind)[i], Field(Fixed(kind)[i], blk) >> ]
     /\ r.keys = [ i \in 1..Len(ks) |-> KeyBits(ks[i]) ]
     /\ Len(out) = SumW(Fixed(kind), 1) + (KeyLen * Len(ks))
\* bytes keep what bits say: the number of bits is known from the number of bytes because keys are longer than a byte
BytesReadBack == Written => LET y == BitsBEtoBytesLE(out) IN BytesLEtoBitsBE(y, Len(out)) = out
\* what each signature or hash must depend on
Covers == \A f \in { "index", "round", "mns", "ee", "pe", "keys" } : \E k \in { "inner", "extra" } : \E i \in 1..Len(Layout(k)) : Layout(k)[i] = f
ASSUME Covers

Num == { 0, 1, 255, 256, 4660, 65535 }
Ent == { "none", "zero", "ones", "one", "rand" }
KeyKinds == { "rand", "generator", "twice", "negated", "projective" }
Gen == { [op |-> "enc", index |-> i, round |-> r, mns |-> m, ee |-> e, pe |-> p, maxv |-> v, n |-> n, keys |-> k] :
           << i, r, m >> \in { << 0, 0, "0" >>, << 1, 255, "1" >>, << 255, 128, "255" >>, << 256, 1, "256" >>, << 4660, 17, "65536" >>, << 65535, 254, "4294967295" >> },
           << e, p >> \in { << "none", "none" >>, << "rand", "none" >>, << "none", "rand" >>, << "ones", "zero" >>, << "one", "rand" >>, << "rand", "rand" >> },
           << n, v >> \in { << 1, 0 >>, << 1, 1 >>, << 1, 3 >>, << 2, 1 >>, << 2, 2 >>, << 3, 4 >>, << 4, 4 >> }, k \in KeyKinds }
  \cup { [op |-> "enc", index |-> 7, round |-> 3, mns |-> "33", ee |-> "rand", pe |-> "rand", maxv |-> v, n |-> n, keys |-> "rand"] : << n, v >> \in { << 0, 0 >>, << 0, 2 >>, << 10, 10 >>, << 9, 12 >> } }
  \* more keys, and more padding, than one byte counts
  \cup { [op |-> "enc", index |-> 9, round |-> 1, mns |-> "85", ee |-> "rand", pe |-> "rand", maxv |-> v, n |-> n, keys |-> "generator"] :
           << n, v >> \in { << 1, 101 >>, << 150, 150 >>, << 206, 0 >>, << 206, 207 >>, << 200, 206 >>, << 1, 257 >>, << 2, 257 >>, << 1, 258 >>, << 256, 256 >>, << 257, 257 >>, << 300, 20 >>, << 257, 600 >> } }
  \cup { [op |-> "key", y0 |-> a, y1 |-> b, z |-> z] : a \in { "0", "1", "half-1", "half", "half+1", "p-1", "rand" }, b \in { "0", "1", "half-1", "half", "half+1", "p-1", "rand" }, z \in { 0, 1 } }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
