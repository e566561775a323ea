SPECIFICATION SimSpec
CONSTANTS
  N <- ToyN
  CT1 <- ToyCT1
  CT2 <- ToyCT2
  Str <- Id
  KeyOfRef <- Id
  MsgOfRef <- Id
  NoRef <- NoText
  StOfRef <- Id
  NS = 3
  MaxKeys = 6
  MaxSends = 6
  MaxRecv = 6
  MaxFiles = 3
  MaxLevel = 24
  Kl = 8
  Gs = 1
  Shared = TRUE
  Mut = "none"
INVARIANTS PrintLog RulesHold PadOnceAtStation UsedIsMarked
VIEW View
CHECK_DEADLOCK FALSE
