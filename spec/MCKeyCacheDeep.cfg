SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Cap = 3
  Vals = {1, 2, 4, 8}
  MaxList = 4
  MaxHist = 0
  Kinds = {"plain", "trailing", "zero", "badflag", "short"}
INVARIANTS Transparent Bounded OnlyValid AggRight DeRight
VIEW mview
CHECK_DEADLOCK FALSE
