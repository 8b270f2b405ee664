INIT Init
NEXT Next
CONSTANT MaxLen = 5
INVARIANTS Multiplies Commutes Lengths ValidInside Centred CorrLag AutoPeak
CHECK_DEADLOCK FALSE
