SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Cap = 2
  Vals = {1, 2, 4}
  MaxList = 3
  MaxHist = 0
  Kinds = {"plain", "trailing", "zero", "badflag"}
INVARIANTS Transparent Bounded OnlyValid AggRight DeRight
VIEW mview
CHECK_DEADLOCK FALSE
