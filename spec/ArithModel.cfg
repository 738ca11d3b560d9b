CONSTANTS W = 5
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS AddOk SubOk MulOk AbsOk DivOk DivDef CmpOk CountOk ShiftOk
CHECK_DEADLOCK FALSE
