CONSTANTS Grid = 64 Variant = "none"
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
