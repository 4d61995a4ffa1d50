SPECIFICATION Spec
CONSTANT MaxBits = 14
INVARIANTS ByteRange SizeRule RoundTripLE RoundTripBE SameNumber TakeTruncates
CHECK_DEADLOCK FALSE
