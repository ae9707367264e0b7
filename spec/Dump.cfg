INIT Init
NEXT Next
INVARIANTS QueryOk HashOk DelOk IndexOk DropOk MapOk SetOk DumpOk CheckOk LoadOk RowsOk FillOk
CHECK_DEADLOCK FALSE
