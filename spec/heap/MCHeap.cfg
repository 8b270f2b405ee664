SPECIFICATION Spec
CONSTANTS N = 12
          Huge = 500
INVARIANTS Honest Kept
PROPERTY Clean
