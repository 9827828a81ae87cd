SPECIFICATION GSpec
CONSTANTS
  W = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  T = {1, 2, 3}
  Kinds = {"once", "mut", "fn"}
  Caps = {"zst", "small", "big", "align"}
  Stores = {"any", "send", "sync", "sendsync"}
  Ctors = {"try_cc", "cc", "new", "try_thunk", "thunk"}
  Modes = {"ok", "noalloc"}
  Unwinds = {TRUE}
  Convs = {0}
  As = {1, 3, 4}
  MaxLen = 70
  MaxDepth = 4
  Linger = 1
  Free = TRUE
  Shared = {10, 11}
  Rand = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
