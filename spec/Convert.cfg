INIT Init
NEXT Next
INVARIANTS CaseOk OutSymbols Converted Named
CHECK_DEADLOCK FALSE
