INIT Init
NEXT Next
CONSTANTS Size = 2
Cap = 1
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
