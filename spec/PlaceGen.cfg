SPECIFICATION GSpec
CONSTANTS
  Align = 8
  Round = 1
  MaxLen = 1
  Fault = "none"
  Show = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
