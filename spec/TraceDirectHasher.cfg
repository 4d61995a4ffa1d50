SPECIFICATION TraceSpec
CONSTANTS H <- Conc
  TrackUsed = FALSE
INVARIANTS ExactLength RejectsLongDomain NothingOnError
CHECK_DEADLOCK TRUE
