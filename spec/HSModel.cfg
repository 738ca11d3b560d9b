CONSTANTS C = 2
 MAX = 5
 TURNS = 3
 Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Inv WireClean
CHECK_DEADLOCK FALSE
