CONSTANT B = 4096
INIT Init
NEXT Next
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
