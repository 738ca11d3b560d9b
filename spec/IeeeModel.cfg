CONSTANTS Variant = "ok"
Step = 16
INIT Init
NEXT Next
INVARIANTS Nearest Laws
CHECK_DEADLOCK FALSE
