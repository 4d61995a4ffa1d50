SPECIFICATION Spec
CONSTANTS IndexBits = 2
 RoundBits = 1
 MnsBits = 2
 EntropyBits = 2
 CoordBits = 3
 HalfField <- Half5
INVARIANTS StepwiseIsWhole ReadsBack BytesReadBack
CHECK_DEADLOCK FALSE
