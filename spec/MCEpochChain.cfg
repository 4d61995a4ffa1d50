SPECIFICATION Spec
CONSTANTS PadKey = 1
 MaxIndex = 65535
 MaxLen = 3
INVARIANTS Agrees Lineage QuorumSigned EntropyLinked NoDummies Signed Complete
CHECK_DEADLOCK FALSE
