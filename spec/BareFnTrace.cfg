SPECIFICATION TSpec
CONSTANTS
  W = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  T = {1, 2, 3}
  B = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
  A = {1, 2, 3, 4}
  Aspects = {"call", "clo", "mem", "wx", "fail", "conv", "share", "panic"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
