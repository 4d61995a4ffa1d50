---------------------------- MODULE EpochEncoding ----------------------------
(* What an epoch block is signed as and what its chain publishes: which     *)
(* fields, in which order, with which widths.  A block is written field by  *)
(* field; the parser below is its left inverse, so no two blocks (up to     *)
(* padding of the validator list, which is the point of padding) share an   *)
(* encoding.                                                                *)
EXTENDS BitConv
CONSTANTS IndexBits, RoundBits, MnsBits, EntropyBits,  \* widths
          CoordBits, HalfField                         \* of a coordinate; (p - 1) / 2, most significant bit first

\* numbers are little-endian bytes; an entropy is the empty sequence when it is absent
Zeros(n) == [ i \in 1..n |-> 0 ]
Entropy(e) == IF e = << >> THEN Zeros(EntropyBits) ELSE UnpackLE(e, EntropyBits)
RECURSIVE GreaterFrom(_, _, _)
GreaterFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GreaterFrom(a, b, i + 1)
Over(y0, y1) == LET top == \A i \in 1..Len(y1) : y1[i] = 0 IN
  IF GreaterFrom(IF top THEN y0 ELSE y1, HalfField, 1) THEN 1 ELSE 0
\* a key: the bits of its affine coordinates, most significant first
KeyBits(k) == k.x0 \o k.x1 \o << Over(k.y0, k.y1) >>
\* the keys s[i..j], one after the other (by halves: blocks may list hundreds)
RECURSIVE FlattenIn(_, _, _)
FlattenIn(s, i, j) == IF i > j THEN << >> ELSE IF i = j THEN KeyBits(s[i])
  ELSE LET m == (i + j) \div 2 IN FlattenIn(s, i, m) \o FlattenIn(s, m + 1, j)
Flatten(s, i) == FlattenIn(s, i, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b
\* blk: [index, round, mns, ee, pe, maxv, keys, pad, agg]
Padded(blk) == blk.keys \o [ i \in 1..Max2(0, blk.maxv - Len(blk.keys)) |-> blk.pad ]

Layout(kind) == CASE kind = "plain"   -> << "index", "mns", "keys" >>
                  [] kind = "first"   -> << "index", "pe", "mns", "keys", "padding" >>
                  [] kind = "last"    -> << "index", "ee", "mns", "keys", "padding" >>
                  [] kind = "lastagg" -> << "index", "ee", "mns", "keys", "padding", "agg" >>
                  [] kind = "inner"   -> << "ee", "pe", "keys", "padding" >>
                  [] kind = "extra"   -> << "index", "round", "mns" >>
Kinds == { "plain", "first", "last", "lastagg", "inner", "extra" }
Field(f, blk) == CASE f = "index" -> UnpackLE(blk.index, IndexBits)
                   [] f = "round" -> UnpackLE(blk.round, RoundBits)
                   [] f = "mns"   -> UnpackLE(blk.mns, MnsBits)
                   [] f = "ee"    -> Entropy(blk.ee)
                   [] f = "pe"    -> Entropy(blk.pe)
                   [] f = "keys"  -> Flatten(blk.keys, 1)
                   [] f = "padding" -> Flatten(Padded(blk), Len(blk.keys) + 1)
                   [] f = "agg"   -> KeyBits(blk.agg)
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(lay, blk, i) == IF i > Len(lay) THEN << >> ELSE Field(lay[i], blk) \o EncodeFrom(lay, blk, i + 1)
Encode(kind, blk) == EncodeFrom(Layout(kind), blk, 1)
EncodeBytes(kind, blk) == BitsBEtoBytesLE(Encode(kind, blk))

\* ---- the writer, field by field -------------------------------------------------------------
VARIABLES blk, kind, at, out
evars == << blk, kind, at, out >>
EInit(Blks) == blk \in Blks /\ kind \in Kinds /\ at = 1 /\ out = << >>
Write == at <= Len(Layout(kind)) /\ out' = out \o Field(Layout(kind)[at], blk) /\ at' = at + 1 /\ UNCHANGED << blk, kind >>
Written == at > Len(Layout(kind))

\* ---- the reader: n keys follow the fixed fields ---------------------------------------------
KeyLen == (2 * CoordBits) + 1
Width(f) == CASE f = "index" -> IndexBits [] f = "round" -> RoundBits [] f = "mns" -> MnsBits
              [] f \in {"ee", "pe"} -> EntropyBits [] f = "agg" -> KeyLen
Fixed(k) == SelectSeq(Layout(k), LAMBDA f : f \notin {"keys", "padding", "agg"})
RECURSIVE SumW(_, _)
SumW(fs, i) == IF i > Len(fs) THEN 0 ELSE Width(fs[i]) + SumW(fs, i + 1)
Read(k, bits) ==
  LET fs == Fixed(k)
      start(i) == SumW(SubSeq(fs, 1, i - 1), 1)
      body == SubSeq(bits, SumW(fs, 1) + 1, Len(bits))
      n == Len(body) \div KeyLen
  IN [ fields |-> [ i \in 1..Len(fs) |-> << fs[i], SubSeq(bits, start(i) + 1, start(i) + Width(fs[i])) >> ],
       keys |-> [ i \in 1..n |-> SubSeq(body, ((i - 1) * KeyLen) + 1, i * KeyLen) ] ]
=============================================================================
