SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxHeap = 4
  MaxHist = 0
  MaxLevel = 5
  Msgs <- OneMsg
  Extras <- TwoExtras
  SkVals = {1, 2}
  Kinds <- AllKinds
CONSTRAINT LevelBound
INVARIANTS ModesApart Refused StrictSound
PROPERTY Stable
VIEW mview
CHECK_DEADLOCK FALSE
