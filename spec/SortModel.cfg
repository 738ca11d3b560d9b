CONSTANTS MaxN = 7
V = 1
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Attached Permuted Sorted
CHECK_DEADLOCK FALSE
