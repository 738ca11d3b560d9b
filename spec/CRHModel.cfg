CONSTANT W = 5
INIT Init
NEXT Next
INVARIANT Linear
CHECK_DEADLOCK FALSE
