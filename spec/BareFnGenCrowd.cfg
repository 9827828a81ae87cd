SPECIFICATION GSpec
CONSTANTS
  W = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48}
  T = {1, 2}
  Kinds = {"once", "mut", "fn"}
  Caps = {"zst", "small", "big", "align"}
  Stores = {"any", "send", "sync", "sendsync"}
  Ctors = {"try_cc", "cc", "new", "try_thunk", "thunk"}
  Modes = {"ok"}
  Unwinds = {TRUE}
  Convs = {0}
  As = {1, 2, 3}
  MaxLen = 260
  MaxDepth = 4
  Linger = 4
  Free = FALSE
  Shared = {}
  Rand = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
