INIT InitSim
NEXT NextSim
CONSTANTS
  Calls = {"AA", "BB"}
  MaxIds = 0
  Mut = "none"
INVARIANTS Show
CHECK_DEADLOCK FALSE
