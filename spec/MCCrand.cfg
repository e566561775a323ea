SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Want = 2
  MaxCalls = 4
  MaxFails = 1
  Mut = "none"
INVARIANTS AloneInSource NothingTwice Filled NobodyStuck Unlocked
CHECK_DEADLOCK FALSE
