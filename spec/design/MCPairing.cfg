SPECIFICATION Spec2
CONSTANT MaxRoots = 10
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
