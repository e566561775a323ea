SPECIFICATION Spec
CONSTANTS
  MaxRows = 2
  MaxLen = 4
  Names <- Some
  Mut = "none"
INVARIANTS NamesApart ReadBack Apart
CHECK_DEADLOCK FALSE
