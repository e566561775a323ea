SPECIFICATION Spec
CONSTANTS
  N <- RealN
  CT1 <- RealCT1
  CT2 <- RealCT2
  Str <- TraceStr
  KeyOfRef <- KeyAt
  MsgOfRef <- MsgAt
  NoRef = 0
  StOfRef <- State
VIEW View
CHECK_DEADLOCK FALSE
