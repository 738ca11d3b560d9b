CONSTANTS D = 5 MaxLen = 7
INIT Init
NEXT Next
INVARIANTS AsOne NoRepeat
CHECK_DEADLOCK FALSE
