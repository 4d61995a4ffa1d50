SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS Computes Quorum NoPadding Unique
CHECK_DEADLOCK FALSE
