CONSTANTS Seeds = {"s1","s2"}
 MaxPos = 6
INIT Init
NEXT Next
INVARIANTS NoLeftover Contiguous All
CHECK_DEADLOCK FALSE
