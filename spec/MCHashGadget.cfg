SPECIFICATION Spec
CONSTANTS P = 13
 B = 1
INVARIANTS SoundOut Complete
CHECK_DEADLOCK FALSE
