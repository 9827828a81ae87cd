SPECIFICATION Spec
CONSTANTS
  UseRules = {"sysv", "win", "cdecl", "stdcall", "fastcall", "thiscall", "a64", "arm", "vfp"}
  UseTypes = {"i32", "i64", "f64"}
  MaxArgs = 3
  Fault = "none"
INVARIANTS
  Delivered
  Returned
  KeepsRegisters
  KeepsStack
  Separate
CHECK_DEADLOCK FALSE
