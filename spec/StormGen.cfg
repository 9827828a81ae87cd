SPECIFICATION Spec
CONSTANTS
  Ts = {1, 2, 3, 4}
  Len0 = 50
  Shares = TRUE
  Hows = {0, 1, 2, 3}
  Rounds = {1, 2, 20, 100}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
