SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  T = {1}
  B = {1, 2}
  A = {1}
  Aspects = {"call", "clo", "mem", "wx", "fail", "conv", "share", "panic"}
  Kinds = {"once", "fn"}
  Caps = {"zst", "small"}
  Uws = {TRUE, FALSE}
  Refs = {TRUE, FALSE}
  Uwd = {TRUE, FALSE}
  MaxDepth = 2
  MaxCalls = 2
  Wild = FALSE
INVARIANTS Inv CmdInv
PROPERTIES ConvertsTouchNothing RunsOwn RefusalIsFinal RefusedNeverLive PanicContained AbortJustified DeadStaysDead RefinesApi
CHECK_DEADLOCK FALSE
