CONSTANTS Starts = {1,2}
 MaxG = 8
 BB = 4
INIT Init
NEXT Next
INVARIANTS Lockstep NoReuse InBatch
CHECK_DEADLOCK FALSE
