SPECIFICATION Spec
CONSTANTS Size = 3
Cap = 2
Patient = TRUE
INVARIANT Safe
PROPERTY Returns
CHECK_DEADLOCK FALSE
