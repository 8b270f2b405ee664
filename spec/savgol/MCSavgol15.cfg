INIT Init
NEXT Next
CONSTANTS MaxW = 15 MaxP = 7
INVARIANTS Moments LeastNorm Symmetric Reproduces
CHECK_DEADLOCK FALSE
