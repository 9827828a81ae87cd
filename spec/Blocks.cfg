SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  Cells = {0, 1, 2, 3}
  Sizes = {1, 2}
  MaxBlocks = 2
  Fault = "none"
INVARIANTS Apart Large Shows Reusable
CHECK_DEADLOCK FALSE
