------------------------------- MODULE Blake2s -------------------------------
(***************************************************************************)
(* BLAKE2s (RFC 7693 plus the parameter block of the BLAKE2 paper, which   *)
(* BLAKE2X uses) as an executable TLA+ definition.                         *)
(*                                                                         *)
(* Bytes are 0..255; a 32-bit word is a pair <<hi, lo>> of 16-bit halves   *)
(* (TLC's integers are 32-bit signed).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

LOCAL M16 == 65536

Add2(a, b) == LET lo == a[2] + b[2]
              IN  << (a[1] + b[1] + (lo \div M16)) % M16, lo % M16 >>
Add3(a, b, c) == LET lo == a[2] + b[2] + c[2]
                 IN  << (a[1] + b[1] + c[1] + (lo \div M16)) % M16, lo % M16 >>
Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>

Rot16(a) == << a[2], a[1] >>
\* right rotation by 0 < n < 16, p = 2^n
LOCAL RotP(a, p) == << (a[1] \div p) + (a[2] % p) * (M16 \div p),
                       (a[2] \div p) + (a[1] % p) * (M16 \div p) >>
Rot12(a) == RotP(a, 4096)
Rot8(a)  == RotP(a, 256)
Rot7(a)  == RotP(a, 128)

IV == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
         <<20750, 21119>>, <<39685, 26764>>, << 8067, 55723>>, <<23520, 52505>> >>

\* message schedule, zero-based indices into the block
SIGMA == <<
  << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,10,11,12,13,14,15>>,
  <<14,10, 4, 8, 9,15,13, 6, 1,12, 0, 2,11, 7, 5, 3>>,
  <<11, 8,12, 0, 5, 2,15,13,10,14, 3, 6, 7, 1, 9, 4>>,
  << 7, 9, 3, 1,13,12,11,14, 2, 6, 5,10, 4, 0,15, 8>>,
  << 9, 0, 5, 7, 2, 4,10,15,14, 1,11,12, 6, 8, 3,13>>,
  << 2,12, 6,10, 0,11, 8, 3, 4,13, 7, 5,15,14, 1, 9>>,
  <<12, 5, 1,15,14,13, 4,10, 0, 7, 6, 3, 9, 2, 8,11>>,
  <<13,11, 7,14,12, 1, 3, 9, 5, 0,15, 4, 8, 6, 2,10>>,
  << 6,15,14, 9,11, 3, 0, 8,12, 2,13, 7, 1, 4,10, 5>>,
  <<10, 2, 8, 4, 7, 6, 1, 5,15,11, 9,14, 3,12,13, 0>> >>

\* the mixing function on four words; result <<a, b, c, d>>
G(a0, b0, c0, d0, x, y) ==
  LET a1 == Add3(a0, b0, x)
      d1 == Rot16(Xor2(d0, a1))
      c1 == Add2(c0, d1)
      b1 == Rot12(Xor2(b0, c1))
      a2 == Add3(a1, b1, y)
      d2 == Rot8(Xor2(d1, a2))
      c2 == Add2(c1, d2)
      b2 == Rot7(Xor2(b1, c2))
  IN  << a2, b2, c2, d2 >>

LOCAL Round(v, m, s) ==
  LET g0 == G(v[1], v[5], v[ 9], v[13], m[s[ 1]+1], m[s[ 2]+1])
      g1 == G(v[2], v[6], v[10], v[14], m[s[ 3]+1], m[s[ 4]+1])
      g2 == G(v[3], v[7], v[11], v[15], m[s[ 5]+1], m[s[ 6]+1])
      g3 == G(v[4], v[8], v[12], v[16], m[s[ 7]+1], m[s[ 8]+1])
      h0 == G(g0[1], g1[2], g2[3], g3[4], m[s[ 9]+1], m[s[10]+1])
      h1 == G(g1[1], g2[2], g3[3], g0[4], m[s[11]+1], m[s[12]+1])
      h2 == G(g2[1], g3[2], g0[3], g1[4], m[s[13]+1], m[s[14]+1])
      h3 == G(g3[1], g0[2], g1[3], g2[4], m[s[15]+1], m[s[16]+1])
  IN << h0[1], h1[1], h2[1], h3[1],
        h3[2], h0[2], h1[2], h2[2],
        h2[3], h3[3], h0[3], h1[3],
        h1[4], h2[4], h3[4], h0[4] >>

\* h: 8 words; m: 16 words; t: bytes hashed so far (< 2^31); last: BOOLEAN
Compress(h, m, t, last) ==
  LET ones == << 65535, 65535 >>
      v0 == << h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8],
               IV[1], IV[2], IV[3], IV[4],
               Xor2(IV[5], << t \div M16, t % M16 >>), IV[6],
               IF last THEN Xor2(IV[7], ones) ELSE IV[7], IV[8] >>
      v == FoldLeft(LAMBDA acc, s : Round(acc, m, s), v0, SIGMA)
  IN << Xor2(h[1], Xor2(v[1], v[ 9])), Xor2(h[2], Xor2(v[2], v[10])),
        Xor2(h[3], Xor2(v[3], v[11])), Xor2(h[4], Xor2(v[4], v[12])),
        Xor2(h[5], Xor2(v[5], v[13])), Xor2(h[6], Xor2(v[6], v[14])),
        Xor2(h[7], Xor2(v[7], v[15])), Xor2(h[8], Xor2(v[8], v[16])) >>

\* bytes <-> little-endian words
Byte(bs, i) == IF i <= Len(bs) THEN bs[i] ELSE 0
WordAt(bs, o) == << Byte(bs, o+3) + 256 * Byte(bs, o+4),
                    Byte(bs, o+1) + 256 * Byte(bs, o+2) >>
LOCAL Block(bs, o) == [ i \in 1..16 |-> WordAt(bs, o + 4 * (i - 1)) ]
WordBytes(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
LOCAL StateBytes(h) == WordBytes(h[1]) \o WordBytes(h[2]) \o WordBytes(h[3]) \o WordBytes(h[4])
                    \o WordBytes(h[5]) \o WordBytes(h[6]) \o WordBytes(h[7]) \o WordBytes(h[8])

NBlocks(msg) == IF Len(msg) = 0 THEN 1 ELSE (Len(msg) + 63) \div 64

\* The hash of msg under a 32-byte parameter block, all 32 bytes of the state.
HashState(param, msg) ==
  LET n  == NBlocks(msg)
      h0 == [ i \in 1..8 |-> Xor2(IV[i], WordAt(param, 4 * (i - 1))) ]
  IN StateBytes(
       FoldLeft(LAMBDA h, k : Compress(h, Block(msg, 64 * (k - 1)),
                                       IF k = n THEN Len(msg) ELSE 64 * k, k = n),
                h0, [ k \in 1..n |-> k ]))

Zeros(n) == [ i \in 1..n |-> 0 ]
Pad(bs, n) == bs \o Zeros(n - Len(bs))
Take(s, n) == SubSeq(s, 1, n)

(* The parameter block.  xl is the total output length written in bytes     *)
(* 12-13, i.e. bits 32..47 of the node offset (the "XOF length" field).    *)
ParamBlock(digest, fanout, depth, leaf, node, xl, nodeDepth, inner, personal) ==
  << digest, 0, fanout, depth,
     leaf % 256, (leaf \div 256) % 256, 0, 0,
     node % 256, (node \div 256) % 256, (node \div 65536) % 256, 0,
     xl % 256, (xl \div 256) % 256,
     nodeDepth, inner >> \o Zeros(8) \o Pad(personal, 8)

\* plain BLAKE2s with a personalisation, 32 bytes out
Blake2sPersonal(personal, msg) ==
  HashState(ParamBlock(32, 1, 1, 0, 0, 0, 0, 0, personal), msg)
=============================================================================
