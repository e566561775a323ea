INIT InitPages
NEXT Next
CONSTANTS
  MaxItems = 9
  Cap = 4
  MaxHeight = 6
  MaxLetters = 1
  MaxGs = 1
  MaxColumns = 1
  Mut = "none"
INVARIANTS EachOnce NothingElse FitsPage Show
CHECK_DEADLOCK FALSE
