CONSTANTS MAX = 8
 Variant = "ok"
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
