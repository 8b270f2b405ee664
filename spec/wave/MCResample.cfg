INIT Init
NEXT Next
CONSTANT MaxN = 6
INVARIANTS Identity Interpolates RoundTrip MeanKept OddIdentity ToneKept
CHECK_DEADLOCK FALSE
