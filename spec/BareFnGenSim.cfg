SPECIFICATION GSpec
CONSTANTS
  W = {1, 2, 3, 4, 5, 6}
  T = {1, 2}
  Kinds = {"once", "mut", "fn"}
  Caps = {"zst", "small", "big", "align"}
  Stores = {"any", "send", "sync", "sendsync"}
  Ctors = {"try_cc", "cc", "new", "try_thunk", "thunk"}
  Modes = {"ok", "noalloc", "noreloc"}
  Unwinds = {TRUE}
  Convs = {0}
  As = {1, 2, 3}
  MaxLen = 40
  MaxDepth = 4
  Linger = 1
  Free = FALSE
  Shared = {}
  Rand = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
