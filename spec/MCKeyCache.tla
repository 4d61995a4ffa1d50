----------------------------- MODULE MCKeyCache -----------------------------
EXTENDS KeyCache, TLC, Json
CONSTANTS Sim, Vals, MaxList, MaxHist, Kinds
VARIABLES hist, last
vars == << cachevars, hist, last >>
mview == << cachevars, last >>
BigVals == 1..1000
SimVals == {1, 2, 4, 8, 16, 32, 64, 128}
P(X) == IF Sim THEN {RandomElement(X)} ELSE X
Log(op) == (Sim => Len(hist) < MaxHist) /\ hist' = IF Sim THEN Append(hist, op) ELSE << >>
Lists == IF Sim THEN { TLCEval([ i \in 1..RandomElement(0..MaxList) |-> RandomElement(Vals) ]) }
         ELSE UNION { [ 1..n -> Vals ] : n \in 0..MaxList }
Init == CacheInit /\ hist = << >> /\ last = [q |-> "none"]
Encs == [ v : Vals, kind : Kinds \ {"zero"} ] \cup [ v : {0}, kind : Kinds \cap {"zero"} ]
DoDe == \E e \in P(Encs) : \E r \in { Decode(e) } :
          /\ Deserialize(e, r) /\ Log([op |-> "de", v |-> e.v, kind |-> e.kind])
          /\ last' = [q |-> "de", e |-> e, r |-> r]
DoAgg == \E ks \in Lists : \E r \in { SetSum(Range(ks)), combined } :
          /\ Aggregate(ks, r)
          /\ Log([op |-> "agg", ks |-> ks, rep |-> TLCEval([ i \in 1..Len(ks) |-> RandomElement(0..2) ])])
          /\ last' = [q |-> "agg", ks |-> ks, r |-> r]
DoClear == Clear /\ Log([op |-> "clear"]) /\ last' = [q |-> "none"]
DoEmit == Sim /\ Len(hist) >= MaxHist /\ last.q # "end" /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ last' = [q |-> "end"] /\ UNCHANGED << cachevars, hist >>
Next == DoDe \/ DoAgg \/ DoClear \/ DoEmit
Spec == Init /\ [][Next]_vars
\* the incremental aggregate is always the sum over the set just given
AggRight == last.q = "agg" => last.r = SetSum(Range(last.ks))
DeRight == last.q = "de" => last.r = Decode(last.e)
=============================================================================
