SPECIFICATION Spec
CONSTANTS
  MaxKeys = 2
  MaxCmds = 4
  Mut = "none"
  Calm = FALSE
INVARIANTS OneMessagePerKey ShownIsSaved SuccessIsSaved AllOrNothing FailedIsNothing
VIEW View
CHECK_DEADLOCK FALSE
