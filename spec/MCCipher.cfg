SPECIFICATION Spec
CONSTANTS
  N <- ToyN
  CT1 <- ToyCT1
  CT2 <- ToyCT2
  MaxLen = 3
  Kls = {7, 8, 9, 10}
  Gs = 1
  NKeys = 4
  Lookahead = TRUE
INVARIANTS ReadsBack WholeGroups SameForAllKeys EnoughKeys
CHECK_DEADLOCK FALSE
