SPECIFICATION Spec
CONSTANTS
  Size = 4
  Fault = ""
  Show = FALSE
INVARIANTS Visible
CHECK_DEADLOCK FALSE
