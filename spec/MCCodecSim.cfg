SPECIFICATION Spec
CONSTANTS
  N <- RealN
  CT1 <- RealCT1
  CT2 <- RealCT2
  MaxLen = 16
  MaxNoise = 8
INVARIANTS PrintLetters RoundTrip
CHECK_DEADLOCK FALSE
