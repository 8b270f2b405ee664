SPECIFICATION Spec
CONSTANTS
  MaxSamples = 4
  MaxChunk = 2
  Alphabet <- AlphabetDef
  SecSet <- SecSetDef
  DelaySet <- DelaySetDef
INVARIANTS ChunkingInvisible SameLength DifferenceEquation Superposition
PROPERTIES CoefConstant
CHECK_DEADLOCK FALSE
