SPECIFICATION GSpec
CONSTANTS
  W = {1}
  T = {1}
  Kinds = {"once", "mut", "fn"}
  Caps = {"small"}
  Stores = {"sendsync"}
  Ctors = {"cc"}
  Modes = {"ok"}
  Unwinds = {TRUE, FALSE}
  Convs = {1, 2, 3, 4, 5, 6}
  As = {1}
  MaxLen = 4
  MaxDepth = 1
  Linger = 1
  Free = FALSE
  Shared = {}
  Rand = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
