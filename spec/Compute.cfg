INIT Init
NEXT Next
INVARIANTS CaseOk Values Evaluated Tests Decided Solved
CHECK_DEADLOCK FALSE
