SPECIFICATION Spec
CONSTANTS
  Alphabet = {1, 2, 3, 4, 5}
  MaxLen = 8
INVARIANTS StackSimple NothingLost Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
