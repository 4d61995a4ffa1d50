SPECIFICATION Spec
CONSTANTS IndexBits = 16
 RoundBits = 8
 MnsBits = 32
 EntropyBits = 128
 CoordBits = 377
 HalfField <- RealHalf
 PadKey = 1
 MaxIndex = 65535
 Capacity = 376
CHECK_DEADLOCK TRUE
