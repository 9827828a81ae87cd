SPECIFICATION GSpec
CONSTANTS
  Arch = "x64"
  Regs = {0, 1, 2, 3, 4}
  Vecs = {1, 2}
  Syms = {1, 2, 3}
  UseOps = {}
  MinLen = 1
  MaxLen = 6
  Rand = TRUE
  Exts = {}
  Shape = ""
INVARIANTS Emit
CHECK_DEADLOCK FALSE
