SPECIFICATION TraceSpec
CONSTANTS
  Cap = 512
CHECK_DEADLOCK TRUE
