SPECIFICATION Spec
CONSTANTS
  S = 4
  L = 3
  Gs = 1
  Kl = 2
  MaxKeys = 2
  MaxDraws = 8
  Mut = "none"
INVARIANTS UniqueIds Complete Fresh Unbiased
CHECK_DEADLOCK FALSE
