SPECIFICATION GSpec
CONSTANTS
  W = {1}
  T = {1}
  Kinds = {"once", "mut", "fn"}
  Caps = {"zst", "small"}
  Stores = {"sendsync"}
  Ctors = {"try_cc"}
  Modes = {"ok"}
  Unwinds = {TRUE}
  Convs = {0}
  As = {1}
  MaxLen = 5
  MaxDepth = 2
  Linger = 1
  Free = FALSE
  Shared = {}
  Rand = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
