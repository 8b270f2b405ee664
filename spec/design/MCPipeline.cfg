SPECIFICATION Spec
CONSTANTS MaxOrder = 4 MaxLen = 4
INVARIANTS SectionsOk CascadeIsDirect ConstantOk
CHECK_DEADLOCK FALSE
