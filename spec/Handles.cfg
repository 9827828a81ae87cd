SPECIFICATION HSpec
CONSTANTS
  T = {1, 2}
  A = {1, 2}
  Ops = {"alloc", "release"}
  Args = {1, 2}
  Answers = {"ok", "err"}
  MaxLayers = 1
  MaxReqs = 2
  Fault = "none"
INVARIANTS Faithful Once
PROPERTIES SameRequest
CHECK_DEADLOCK FALSE
