CONSTANTS LEN = 11
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
