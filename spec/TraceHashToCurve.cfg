SPECIFICATION TraceSpec
CONSTANTS
  NumTries = 255
  Compat = TRUE
CHECK_DEADLOCK TRUE
