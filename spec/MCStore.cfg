SPECIFICATION Spec
CONSTANTS
  NoKey = 0
  Insts = {1, 2}
  Paths = {1, 2}
  Keys = {1, 2}
  MaxCont = 2
  MaxLevel = 6
  Mut = "none"
VIEW View
INVARIANTS Guarded SavedIsLoadable LoadedWasSaved FailedLoadChangesNothing FailedSaveKeeps OnlyItsKey
PROPERTIES MayOverwriteOnlyIfMeant
CHECK_DEADLOCK FALSE
