SPECIFICATION Spec
CONSTANTS
  MaxKeys = 8
  MaxCmds = 10
  Mut = "none"
  Calm = TRUE
INVARIANTS ShowCmds
CHECK_DEADLOCK FALSE
