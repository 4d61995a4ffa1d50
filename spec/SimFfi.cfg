SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxHeap = 30
  MaxHist = 40
  MaxLevel = 80
  Msgs <- SimMsgs
  Extras <- MCExtras
  SkVals <- SimSk
  Kinds <- AllKinds
INVARIANTS Refused StrictSound
CHECK_DEADLOCK FALSE
