CONSTANTS
  Calls = {}
  Answers = {}
  N = 4
INIT TInit
NEXT TNext
INVARIANT Caught
CHECK_DEADLOCK FALSE
