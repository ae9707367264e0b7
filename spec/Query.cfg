INIT Init
NEXT Next
INVARIANTS QueryOk HashOk DelOk IndexOk DropOk MapOk SetOk
CHECK_DEADLOCK FALSE
