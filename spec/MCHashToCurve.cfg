SPECIFICATION Spec
CONSTANT NumTries = 4
INVARIANTS FirstGood FailsOnlyExhausted CounterBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
