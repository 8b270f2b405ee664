SPECIFICATION Spec
CONSTANTS N = 5
          Asks = 5
INVARIANTS Disciplined Sparing Remembered
PROPERTY Answered
