SPECIFICATION Spec
CONSTANTS
  N <- RealN
  CT1 <- RealCT1
  CT2 <- RealCT2
  Str <- TraceStr
  NoRef = 0
  KeyRec <- TraceKey
  MsgRec <- TraceMsg
  RulesOf <- ListingRules
VIEW View
CHECK_DEADLOCK FALSE
