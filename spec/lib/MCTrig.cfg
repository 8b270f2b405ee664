INIT Init
NEXT Next
INVARIANTS PiIs Circle AddAngles Parity AddExp EIs Roots
CHECK_DEADLOCK FALSE
