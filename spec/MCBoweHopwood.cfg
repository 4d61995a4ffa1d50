SPECIFICATION Spec
CONSTANTS
  Window = 3
  Segments = 3
INVARIANTS Injective InRange OnlyTooLongRefused
CHECK_DEADLOCK FALSE
