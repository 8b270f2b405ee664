SPECIFICATION Spec
INVARIANTS SameAsGeneral Starts
PROPERTIES Fixed
CHECK_DEADLOCK FALSE
