SPECIFICATION Spec
CONSTANTS IndexBits = 16
 RoundBits = 8
 MnsBits = 32
 EntropyBits = 128
 CoordBits = 377
 HalfField <- RealHalf
CHECK_DEADLOCK TRUE
