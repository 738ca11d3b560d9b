CONSTANTS LB = 2 L = 2 R = 3
INIT Init
NEXT Next
INVARIANTS ReducedProduct Commutes Associates Reflected Inverses PackIs InnerIs PowersIs
CHECK_DEADLOCK FALSE
