------------------------------- MODULE MCCodec -------------------------------
(* The format over a toy curve y^2 = x^3 + 1 over F_37 with one-byte           *)
(* coordinates: every byte string of every length up to three is decoded.     *)
EXTENDS Codec, FiniteSets, TLC, Json, IOUtils, SequencesExt
MCP == <<37>>
MCHalf == <<18>>
MCR == <<11>>
VARIABLES b, mode, out
vars == << b, mode, out >>
Sq(x) == { y \in 0..36 : (y * y) % 37 = (x * x * x + 1) % 37 }
Pts == { [st |-> "inf", x |-> <<0>>, y |-> <<1>>] } \cup UNION { { [st |-> "pt", x |-> <<x>>, y |-> <<y>>] : y \in Sq(x) } : x \in 0..36 }
Bytes1 == { << v >> : v \in 0..255 }
Some == 0..39 \cup {63, 64, 65, 100, 101, 127, 128, 146, 164, 165, 191, 192, 193, 255}
Strings(n) == [ 1..n -> IF n = 1 THEN 0..255 ELSE Some ]
Outs(c) == {Err, Inf} \cup { [st |-> "pt", x |-> p.x, y |-> p.y, oncurve |-> TRUE] : p \in Pts \ { q \in Pts : q.st = "inf" } }
FactsOf(s, c) ==
  IF c THEN LET x == s[1] % 64 IN [exists |-> x < 37 /\ Sq(x) # {}, insub |-> TRUE]
  ELSE LET y == s[2] % 64 e == s[1] < 37 /\ y \in Sq(s[1]) IN [exists |-> e, insub |-> e]
Init == b = << >> /\ mode = "start" /\ out = Err
Enc == mode = "start" /\ \E p \in Pts, c \in BOOLEAN :
         /\ b' = EncodePoint(p, 1, c) /\ mode' = (IF c THEN "c" ELSE "u") /\ out' = p
Dec == mode = "start" /\ \E c \in BOOLEAN : \E s \in Strings(IF c THEN 1 ELSE 2) : \E o \in Outs(c) :
         /\ DecodeOk(s, 1, c, FactsOf(s, c), o)
         /\ b' = s /\ mode' = (IF c THEN "dc" ELSE "du") /\ out' = o
DecShort == mode = "start" /\ \E c \in BOOLEAN : \E s \in IF c THEN { << >> } ELSE { << >> } \cup Bytes1 : \E o \in Outs(c) :
         /\ DecodeOk(s, 1, c, [exists |-> TRUE, insub |-> TRUE], o) /\ b' = s /\ mode' = "short" /\ out' = o
DecScalar == mode = "start" /\ \E s \in { << >> } \cup Bytes1 : \E o \in {Err} \cup { [st |-> "pt", x |-> v] : v \in Bytes1 } :
         /\ DecodeScalarOk(s, o) /\ b' = s /\ mode' = "scalar" /\ out' = o
Next == Enc \/ Dec \/ DecShort \/ DecScalar
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* decoding an encoding gives the point back, and nothing else
RoundTrip == mode \in {"c", "u"} =>
  \A o \in Outs(TRUE) : DecodeOk(b, 1, mode = "c", FactsOf(b, mode = "c"), o)
      <=> IF out.st = "inf" THEN o = Inf ELSE (o.st = "pt" /\ o.x = out.x /\ o.y = out.y)
\* compressed encodings are canonical up to the abscissa of the point at infinity
Canonical == mode = "dc" /\ out.st = "pt" => EncodePoint(out, 1, TRUE) = b
OnlyPoints == mode \in {"dc", "du"} /\ out.st = "pt" => [st |-> "pt", x |-> out.x, y |-> out.y] \in Pts
ShortRefused == mode = "short" => out = Err
Scalars == mode = "scalar" => (out.st = "pt" <=> (Len(b) = 1 /\ b[1] < 11))
\* exactly one of y and -y is the positive one
Sign == \A y \in 1..36 : Positive(<<y>>) # Positive(<<37 - y>>)
-----------------------------------------------------------------------------
Kinds == {"good", "small", "zero", "negflag", "bothflags", "infnonzero", "modulus", "modulusplus", "allones", "nopoint",
          "nosubgroup", "short1", "shorthalf", "empty", "trailing", "bitflip"}
Gen == [ ty : {"key", "sig", "sk"}, compressed : BOOLEAN, kind : Kinds, comp : {0, 1} ]
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
