SPECIFICATION Spec
PROPERTIES CoefFixed
CHECK_DEADLOCK FALSE
