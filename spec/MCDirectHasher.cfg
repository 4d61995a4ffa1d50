SPECIFICATION Spec
CONSTANTS H <- SymH
  TrackUsed = TRUE
INVARIANTS ExactLength RejectsLongDomain NothingOnError NoParamReuse NodeBound
CHECK_DEADLOCK FALSE
