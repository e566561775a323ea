SPECIFICATION Spec
CONSTANTS
  NObj = 6
  Fields = 1
  Size = 1
  MaxFails = 3
  Mut = "log"
INVARIANTS NothingLeft OthersKept Show
CHECK_DEADLOCK FALSE
