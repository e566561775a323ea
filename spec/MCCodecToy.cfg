SPECIFICATION Spec
CONSTANTS
  N <- ToyN
  CT1 <- ToyCT1
  CT2 <- ToyCT2
  MaxLen = 4
  MaxNoise = 2
INVARIANTS RoundTrip Bounded OnlyLetters PadHarmless NoControlOfOthers
CHECK_DEADLOCK FALSE
