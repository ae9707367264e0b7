INIT Init
NEXT Next
INVARIANTS CaseOk Same Shape Entailed Bounded Distinct Reported All
CHECK_DEADLOCK FALSE
