INIT Init
NEXT Next
CONSTANTS MaxW = 9 MaxP = 4
INVARIANTS Moments LeastNorm Symmetric Reproduces
CHECK_DEADLOCK FALSE
