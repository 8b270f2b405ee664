INIT Init
NEXT Next
INVARIANTS Length Middle PointSymmetric Reversal Linear
CHECK_DEADLOCK FALSE
