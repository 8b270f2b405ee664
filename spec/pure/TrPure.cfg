CONSTANTS
  Calls = {}
  Answers = {}
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
POSTCONDITION AllJudged
