SPECIFICATION Spec
CONSTANTS
  Calls <- AllCalls
  Words <- AllWords
  Dtgs <- AllDtgs
  Seps <- AllSeps
  Ends <- AllEnds
  MaxRcpt = 4
  MaxWords = 8
INVARIANTS Reads PrintIt
CHECK_DEADLOCK FALSE
