SPECIFICATION GSpec
CONSTANTS
  Lane = "x86_64"
  UseCC = {"C"}
  Arities = {0, 1, 2}
  Rounds = 1
  Types = {"i32"}
  Returns = {"()"}
  Kinds = {"fn"}
  Caps = {8}
  Paths = {"newin"}
  Stores = {"any"}
  Forms = {"plain"}
  Bodies = {"light"}
  Places = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
