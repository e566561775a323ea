SPECIFICATION Spec
CONSTANTS
  N <- ToyN
  CT1 <- ToyCT1
  CT2 <- ToyCT2
  Str <- Id
  KeyOfRef <- Id
  MsgOfRef <- Id
  NoRef <- NoText
  StOfRef <- Id
  NS = 2
  MaxKeys = 3
  MaxSends = 2
  MaxRecv = 2
  MaxFiles = 1
  MaxLevel = 5
  Kl = 8
  Gs = 1
  Shared = TRUE
  Mut = "none"
INVARIANTS RulesHold PadOnceAtStation UsedIsMarked
VIEW View
CHECK_DEADLOCK FALSE
