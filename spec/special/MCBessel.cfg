INIT Init
NEXT Next
INVARIANTS Even AtZero Grows Scaled Known Integral TwoSeries
CHECK_DEADLOCK FALSE
