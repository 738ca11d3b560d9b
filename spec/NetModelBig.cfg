CONSTANTS BUF = 2
 MAX = 3
 SYNCS = 1
 Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Inv NoStall NoSyncStall NoDeadlock CloseDelivers
