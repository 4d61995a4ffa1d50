SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  Cap = 512
  Vals <- SimVals
  MaxList = 7
  MaxHist = 30
  Kinds = {"plain", "trailing", "zero", "badflag", "short", "range", "nosubgroup", "empty"}
INVARIANTS Transparent Bounded OnlyValid AggRight DeRight
CHECK_DEADLOCK FALSE
