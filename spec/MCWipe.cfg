SPECIFICATION Spec
CONSTANTS
  NObj = 3
  Fields = 2
  Size = 2
  MaxFails = 2
  Mut = "none"
INVARIANTS NothingLeft OthersKept
CHECK_DEADLOCK FALSE
