INIT Init
NEXT Next
INVARIANTS SameLen Linear Constants ZeroPhase
CHECK_DEADLOCK FALSE
