SPECIFICATION Spec
CONSTANTS
  Align = 8
  Round = 1
  MaxLen = 12
  Fault = "none"
  Show = FALSE
INVARIANTS Fits Aligned Literals
CHECK_DEADLOCK FALSE
