SPECIFICATION Spec
CONSTANT MaxN = 30
INVARIANTS Median Mad Moments Mssd Diff Alt
CHECK_DEADLOCK FALSE
