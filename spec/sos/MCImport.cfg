INIT Init
NEXT Next
INVARIANTS Lossless OnlyWhole Unique
CHECK_DEADLOCK FALSE
