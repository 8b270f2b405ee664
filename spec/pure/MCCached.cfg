CONSTANTS
  Calls = {}
  Answers = {}
INIT MInit
NEXT MNext
INVARIANTS Shown Trapped
CHECK_DEADLOCK FALSE
