SPECIFICATION TraceSpec
CONSTANTS H <- Conc
  TrackUsed = FALSE
  Window = 93
  Segments = 560
CHECK_DEADLOCK TRUE
