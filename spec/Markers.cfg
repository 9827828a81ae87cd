SPECIFICATION Spec
CONSTANTS
  Leaky = FALSE
  Bound = 4
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
