SPECIFICATION Spec
CONSTANTS
  N <- RealN
  CT1 <- RealCT1
  CT2 <- RealCT2
  MaxLen = 2
  MaxNoise = 1
INVARIANTS RoundTrip Bounded OnlyLetters PadHarmless NoControlOfOthers
CHECK_DEADLOCK FALSE
