SPECIFICATION TraceSpec
CONSTANTS
  P <- RealP
  Half <- RealHalf
  R <- RealR
CHECK_DEADLOCK TRUE
