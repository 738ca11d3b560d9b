CONSTANTS C = 3
 MAX = 8
 TURNS = 4
 Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Inv WireClean
CHECK_DEADLOCK FALSE
