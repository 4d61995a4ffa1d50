SPECIFICATION Spec
CONSTANTS Capacity = 3 MaxBits = 11 Modulus = 11
INVARIANTS PacksAll InField RoundTrip Sensitive LowBits
CHECK_DEADLOCK FALSE
