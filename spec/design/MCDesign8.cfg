SPECIFICATION Spec
CONSTANT MaxOrder = 8
INVARIANTS MagnitudeOk Stable RealOk EdgeOk
PROPERTY StepOk
CHECK_DEADLOCK FALSE
