SPECIFICATION Spec
CONSTANTS
  Alphabet = {1, 2, 3, 4}
  MaxLen = 7
INVARIANTS StackSimple NothingLost Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
