SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Holds Right RankUnique Laws
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
