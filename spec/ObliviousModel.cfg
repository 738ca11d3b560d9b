CONSTANTS MaxLen = 3
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS SameObs SamePublic
CHECK_DEADLOCK FALSE
