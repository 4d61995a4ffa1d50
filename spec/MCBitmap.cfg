SPECIFICATION Spec
CONSTANT MaxBits = 10
INVARIANTS CountsAll Duality MonotoneBits MonotoneMax Extremes Quorum
CHECK_DEADLOCK FALSE
