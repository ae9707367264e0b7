INIT Init
NEXT Next
INVARIANTS Cited NumbersIncrease LeafOk StepOk RoleOk EndOk
CHECK_DEADLOCK FALSE
