SPECIFICATION Spec
CONSTANTS PadKey = 1 MaxIndex = 65535
CHECK_DEADLOCK TRUE
