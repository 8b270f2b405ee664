SPECIFICATION Spec2
CONSTANT MaxRoots = 18
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
