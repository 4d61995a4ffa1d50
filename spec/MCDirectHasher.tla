--------------------------- MODULE MCDirectHasher ---------------------------
(* Exhaustive check of DirectHasher with a symbolic primitive, and the      *)
(* generator of the request matrix that is replayed into the real code.     *)
EXTENDS DirectHasher, TLC, Json, IOUtils, SequencesExt

SymH(p, m) == [ i \in 1..32 |-> << p, m, i >> ]

Pattern(n, k) == [ i \in 1..n |-> (k + 7 * i) % 256 ]
Domains == { Pattern(n, 64) : n \in {0, 1, 4, 7, 8, 9, 12} }
Ops == {"crh", "xof", "hash"}
MCRequests == [ op : Ops, domain : Domains, msg : {"m0", "m1"}, len : 0..100 ]

Next == HNext(MCRequests)
Spec == HInit /\ [][Next]_hvars

\* Different (kind, domain, length, node) never share a parameter block,
\* for domains that differ after zero padding to 8 bytes: the CRH and the XOF,
\* and any two requested lengths, are separated.
SepDomains == {Pattern(0, 1), Pattern(4, 64), Pattern(8, 64), Pattern(8, 65)}
SepLens == {1, 31, 32, 33, 64, 96, 255, 256, 257, 512, 65535}
CrhBlocks == { << "crh", d, n, 0 >> : d \in SepDomains, n \in SepLens }
XofBlocks == UNION { { << "xof", d, n, i >> : i \in {0, 1, 255, 256, (n - 1) \div 32} \cap 0..((n - 1) \div 32) }
                      : d \in SepDomains, n \in SepLens }
BlockOf(b) == IF b[1] = "crh" THEN CrhParam(b[2], b[3]) ELSE XofParam(b[2], b[3], b[4])
ASSUME Cardinality({ BlockOf(b) : b \in CrhBlocks \cup XofBlocks }) = Cardinality(CrhBlocks \cup XofBlocks)
ASSUME \A b \in CrhBlocks \cup XofBlocks : Len(BlockOf(b)) = 32

\* the replayed matrix: boundary lengths of message, domain and output
GenMsgLens == {0, 1, 3, 31, 32, 33, 55, 63, 64, 65, 127, 128, 129, 192, 193, 255, 256, 257, 511, 512, 513, 1000}
GenLens == (0..34) \cup (60..68) \cup {48, 80, 95, 96, 97, 127, 128, 129, 160, 191, 192, 255, 256, 257, 383, 384, 385, 512, 513, 1024}
GenDomLens == {0, 1, 3, 7, 8, 9, 10, 16, 32, 33}
Gen ==
     { [op |-> o, domain |-> d, msglen |-> 32, len |-> n] : o \in Ops, d \in {0, 8}, n \in GenLens }
 \cup { [op |-> o, domain |-> 8, msglen |-> m, len |-> n] : o \in Ops, m \in GenMsgLens, n \in {1, 32, 48, 96, 512} }
 \cup { [op |-> o, domain |-> d, msglen |-> m, len |-> n] : o \in Ops, d \in GenDomLens, m \in {0, 5, 64, 70}, n \in {0, 31, 64, 96, 300} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
