CONSTANTS T = 2
MaxW = 2
MaxB = 3
Variant = "local"
INIT Init
NEXT Next
INVARIANTS Alone OwnBackend
CHECK_DEADLOCK FALSE
