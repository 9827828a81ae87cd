SPECIFICATION Spec
CONSTANTS
  Arch = "x64"
  Regs = {0, 1, 2}
  Vecs = {1}
  Syms = {1}
  UseOps = {"movi", "movr", "push", "z1", "lea", "ld", "ld8m", "cmov", "st", "jcc", "jout", "jmp"}
  MaxLen = 3
  Fault = "none"
  Exts = {}
INVARIANTS Same Promised
CHECK_DEADLOCK FALSE
