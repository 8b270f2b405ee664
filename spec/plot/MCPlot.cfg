SPECIFICATION Spec
CONSTANTS Size = 3
Cap = 2
Patient = FALSE
INVARIANT Safe
PROPERTY Returns
CHECK_DEADLOCK FALSE
