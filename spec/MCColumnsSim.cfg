SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  MaxLen = 14
  Names <- Two
  Mut = "none"
INVARIANTS NamesApart ReadBack Apart Show
CHECK_DEADLOCK FALSE
