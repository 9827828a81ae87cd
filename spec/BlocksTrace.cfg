SPECIFICATION TSpec
CONSTANTS
  T = {1, 2, 3}
  Cells = {0}
  Sizes = {}
  MaxBlocks = 0
  Fault = "none"
  Times = 4
  Slack = 512
INVARIANTS Apart
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
