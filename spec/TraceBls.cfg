SPECIFICATION TraceSpec
CONSTANTS
  Concat = TRUE
CHECK_DEADLOCK TRUE
