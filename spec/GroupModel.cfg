CONSTANTS P = 17 A = 2 Bc = 2 Ord = 19
INIT Init
NEXT Next
INVARIANTS Homomorphism LawExact
CHECK_DEADLOCK FALSE
