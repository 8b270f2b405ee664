SPECIFICATION Spec
CONSTANTS Size = 12
Cap = 5
Patient = FALSE
INVARIANT Safe
PROPERTY Returns
CHECK_DEADLOCK FALSE
