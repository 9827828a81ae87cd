SPECIFICATION Spec
CONSTANTS
  Hs = {}
  Shared = {}
  Ts = {1}
  As = {1, 2}
  Len0 = 1
  Walk = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
