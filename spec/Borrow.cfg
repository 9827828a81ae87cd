SPECIFICATION Spec
CONSTANTS
  Forget = FALSE
  Loose = FALSE
  Bound = 2
  Ctors = {"new", "cc", "try", "thunk", "pair", "alias"}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
