SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  W = {1, 2, 3}
  P = {1, 2, 3}
  Deep = 2
  Fault = "none"
INVARIANTS Apart Known Exact Moves
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
