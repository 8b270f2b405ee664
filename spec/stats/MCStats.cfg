SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Holds Right RankUnique Laws
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
