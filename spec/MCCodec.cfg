SPECIFICATION Spec
CONSTANTS
  P <- MCP
  Half <- MCHalf
  R <- MCR
INVARIANTS RoundTrip Canonical OnlyPoints ShortRefused Scalars Sign
CHECK_DEADLOCK FALSE
