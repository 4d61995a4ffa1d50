SPECIFICATION WSpec
CONSTANTS PadKey = 1
 MaxIndex = 65535
 NV = 4
 Faulty = 1
 Mns = 1
 Depth = 2
INVARIANTS NoFork
CHECK_DEADLOCK FALSE
