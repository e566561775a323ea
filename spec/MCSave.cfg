SPECIFICATION Spec
CONSTANTS
  NBlocks = 3
  Savers = {1, 2}
  MaxFaults = 2
  Mut = "none"
INVARIANTS AlwaysComplete AlwaysOnDisk SuccessIsWritten FailureKeeps OnlySuccessOrDeathReplaces
CHECK_DEADLOCK FALSE
