----------------------------- MODULE MCHashGadget -----------------------------
EXTENDS HashGadget, TLC, Json, IOUtils, SequencesExt
\* abscissae beyond the modulus: the XOF gives a whole number of bits
Init == GInit(0..(P + 3))
Next == (\E X, Y, Z \in Fld : Claim(X, Y, Z)) \/ Check
Spec == Init /\ [][Next]_gvars
\* an accepted claim is the decoded point; an ordinate of zero has one sign
SoundOut == pc = "accepted" => out = Decode(x, sign)
\* whatever decodes can be claimed
Complete == (pc = "rejected" /\ Decode(x, sign) # NoPoint /\ claim[1] = x /\ claim[3] = 1 /\ claim[2] = Decode(x, sign)[2])
              => claim[2] = 0 /\ sign = 1
\* why the claim must be affine: other representatives have the right coordinates and are other points
RescaledExists == \E X, Y, Z \in Fld : Z \notin {0, 1} /\ OnCurve(<<X, Y, Z>>) /\ Affine(<<X, Y, Z>>) # Decode(X, Big(Y))
ASSUME RescaledExists

H2B == { [op |-> "h2b", field |-> f, len |-> 8 * k, fill |-> "rand", hash |-> h, pers |-> p, gen |-> 1, kind |-> "mixed"] :
           f \in {"fq", "fr"}, k \in {0, 1, 7, 48, 63, 64, 65, 96, 127, 128, 129, 200}, h \in {256, 512, 768}, p \in {"sig", "other"} }
  \cup { [op |-> "h2b", field |-> "fq", len |-> n, fill |-> f, hash |-> 512, pers |-> p, gen |-> 0, kind |-> k] :
           n \in {1, 3, 7, 8, 9, 15, 16, 384, 385, 400, 511, 512, 513, 1100}, f \in {"zero", "one", "last", "rand"}, p \in {"sig", "other"}, k \in {"witness", "input", "mixed"} }
  \cup { [op |-> "h2b", field |-> f, len |-> n, fill |-> l, hash |-> 512, pers |-> "sig", gen |-> 1, kind |-> k] :
           n \in {8, 384, 392, 512, 520}, f \in {"fq", "fr"}, l \in {"zero", "one", "last"}, k \in {"witness", "input"} }
Htg == { [op |-> "htg", msg |-> m, extra |-> e, delta |-> d, gen |-> g, kind |-> k, forge |-> 0] :
           m \in {1, 20, 100}, e \in {0, 1, 8, 40}, d \in {-1, 0, 1}, g \in {0, 1}, k \in {"witness", "mixed"} }
  \cup { [op |-> "htg", msg |-> m, extra |-> 8, delta |-> d, gen |-> g, kind |-> "input", forge |-> 0] :
           m \in {1, 16, 47, 48, 49, 300, 1000}, d \in {-2, -1, 0, 1, 2}, g \in {0, 1} }
  \cup { [op |-> "htg", msg |-> m, extra |-> e, delta |-> 0, gen |-> g, kind |-> k, forge |-> 1] :
           m \in {20, 70}, e \in {0, 8}, g \in {0, 1}, k \in {"witness", "mixed"} }
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(H2B) \o SetToSeq(Htg)) ELSE TRUE
=============================================================================
