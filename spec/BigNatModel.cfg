CONSTANTS B = 4 MAX = 70
INIT Init
NEXT Next
INVARIANTS AddOk MulOk SubOk CmpOk DivOk PowOk ValOk
CHECK_DEADLOCK FALSE
