SPECIFICATION TraceSpec
CONSTANTS
  NumTries = 255
  Compat = FALSE
CHECK_DEADLOCK TRUE
