INIT Init
NEXT Next
INVARIANTS CaseOk Sound Complete Consequences
CHECK_DEADLOCK FALSE
