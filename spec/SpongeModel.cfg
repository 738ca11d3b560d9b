CONSTANTS BB = 4 RB = 2 MaxBits = 14 Variant = "none"
INIT Init
NEXT Next
INVARIANTS Conforms CapacityClean
CHECK_DEADLOCK FALSE
