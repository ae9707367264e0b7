INIT Init
NEXT Next
INVARIANTS Sound Consequences CaseOk
CHECK_DEADLOCK FALSE
