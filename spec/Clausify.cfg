INIT Init
NEXT Next
INVARIANTS CaseOk Symbols Fresh Faithful SoundF
CHECK_DEADLOCK FALSE
