SPECIFICATION Spec
CONSTANTS
  Concat = TRUE
  Sim = TRUE
  Fam = {}
  MaxKeys = 6
  MaxSigs = 12
  SkVals <- SimSk
  Msgs <- MCMsgs
  Extras <- MCExtras
  MaxHist = 36
  MaxLevel = 30
  MaxList = 3
INVARIANTS DomainSeparation Binding Completeness BatchStrict
CHECK_DEADLOCK FALSE
