SPECIFICATION Spec
CONSTANTS P = 37
 W = 4
INVARIANTS Successor NoFalseDummy
CHECK_DEADLOCK FALSE
