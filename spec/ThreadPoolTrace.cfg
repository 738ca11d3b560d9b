INIT Init
NEXT Next
CONSTRAINT Mark
POSTCONDITION AcceptedH
CHECK_DEADLOCK FALSE
