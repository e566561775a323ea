SPECIFICATION Spec
CONSTANTS
  Calls <- SmallCalls
  Words <- SmallWords
  Dtgs <- SmallDtgs
  Seps <- SmallSeps
  Ends <- SmallEnds
  MaxRcpt = 1
  MaxWords = 2
INVARIANTS Reads
CHECK_DEADLOCK FALSE
