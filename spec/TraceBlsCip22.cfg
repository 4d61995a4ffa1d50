SPECIFICATION TraceSpec
CONSTANTS
  Concat = FALSE
CHECK_DEADLOCK TRUE
