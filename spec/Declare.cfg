SPECIFICATION Spec
CONSTANTS
  MaxLives = 5
  MaxArgs = 4
INVARIANTS Reasons Sane
CHECK_DEADLOCK FALSE
