INIT Init
NEXT Next
INVARIANTS Fraction OneSwitch NeedsDuty
CHECK_DEADLOCK FALSE
