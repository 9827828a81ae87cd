SPECIFICATION Spec
CONSTANTS
  Ts = {1, 2, 3}
  Slots = {1, 2, 3, 4, 5, 6}
  Sizes = {1, 15, 63, 64, 65, 100, 128, 200, 256}
  Len0 = 60
  Owners = {"global", "thread"}
  Apart0 = FALSE
  Stack = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
