SPECIFICATION TSpec
CONSTANTS
  T = {1, 2, 3}
  A = {1, 2}
  Ops = {}
  Args = {}
  Answers = {}
  MaxLayers = 0
  MaxReqs = 0
  Fault = "none"
INVARIANTS Faithful Once
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
