SPECIFICATION Spec
CONSTANT Primes = {3, 5, 7, 11, 13, 17, 31}
INVARIANTS Antisymmetric Complete SoundButForHalf
CHECK_DEADLOCK FALSE
