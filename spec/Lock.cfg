INIT Init
NEXT Next
INVARIANTS Exclusion NoStuck Released Refused Patient Sharing Finished OrderOk
CHECK_DEADLOCK FALSE
