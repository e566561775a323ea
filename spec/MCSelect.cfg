SPECIFICATION Spec
CONSTANTS
  Calls = {"AA"}
  MaxIds = 1
  Mut = "none"
INVARIANTS StagesAgree Laws WithoutOptionsAll
CHECK_DEADLOCK FALSE
