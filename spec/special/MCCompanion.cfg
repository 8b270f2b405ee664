INIT Init
NEXT Next
CONSTANT MaxLen = 5
INVARIANTS Eigen
CHECK_DEADLOCK FALSE
