SPECIFICATION Spec
CONSTANTS
  NoKey = 0
  Insts = {1, 2, 3}
  Paths = {1, 2, 3}
  Keys = {1, 2, 3}
  MaxCont = 40
  MaxLevel = 40
  Mut = "none"
INVARIANTS Guarded SavedIsLoadable LoadedWasSaved FailedLoadChangesNothing FailedSaveKeeps OnlyItsKey PrintScenario
CHECK_DEADLOCK FALSE
