SPECIFICATION Spec
CONSTANT MaxOrder = 4
INVARIANTS MagnitudeOk Stable RealOk EdgeOk
PROPERTY StepOk
CHECK_DEADLOCK FALSE
