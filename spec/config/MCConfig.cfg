INIT Init
NEXT Next
INVARIANT Exactly
CHECK_DEADLOCK FALSE
