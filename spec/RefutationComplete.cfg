INIT Init
NEXT Next
INVARIANTS Complete Finds
CHECK_DEADLOCK FALSE
