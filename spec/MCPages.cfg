SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  Cap = 4
  MaxHeight = 6
  MaxLetters = 9
  MaxGs = 4
  MaxColumns = 12
  Mut = "none"
INVARIANTS EachOnce NothingElse FitsPage AllLetters WholeGroups FitsLine
CHECK_DEADLOCK FALSE
