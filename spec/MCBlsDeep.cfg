SPECIFICATION Spec
CONSTANTS
  Concat = TRUE
  Sim = FALSE
  Fam = {"agg", "batch"}
  MaxKeys = 2
  MaxSigs = 2
  SkVals = {0, 1, 2}
  Msgs <- MCMsgs
  Extras <- MCExtras
  MaxHist = 0
  MaxLevel = 6
  MaxList = 2
CONSTRAINT LevelBound
INVARIANTS DomainSeparation Binding Completeness AggregationSound BatchStrict
VIEW mview
CHECK_DEADLOCK FALSE
