SPECIFICATION Spec
INVARIANTS ExactOrError NothingOnError LongRefused
CHECK_DEADLOCK FALSE
