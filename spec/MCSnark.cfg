SPECIFICATION Spec
CONSTANTS PadKey = 1 MaxIndex = 3 MaxTransitions = 3
INVARIANTS FillHarmless Attested Complete Unpublished
CHECK_DEADLOCK FALSE
