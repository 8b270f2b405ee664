CONSTANTS
  Calls = {}
  Answers = {}
INIT HInit
NEXT HNext
INVARIANTS Honest CanAlwaysAnswer
CHECK_DEADLOCK FALSE
