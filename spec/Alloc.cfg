INIT Init
NEXT Next
INVARIANTS BlockOk FailOk FreeOk ContentOk ScanOk ReuseOk SteadyOk
CHECK_DEADLOCK FALSE
