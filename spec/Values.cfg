INIT Init
NEXT Next
INVARIANTS NoIllegal RoundTrip Stays Injective Unique Compare
CHECK_DEADLOCK FALSE
