CONSTANTS BUF = 4 MAXP = 9 MAXL = 14
INIT Init
NEXT Next
INVARIANTS Concat Refines Bounded
CHECK_DEADLOCK FALSE
