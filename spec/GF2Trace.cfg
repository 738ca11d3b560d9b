CONSTANTS LB = 16 L = 8 R = 135
INIT Init
NEXT Next
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
