SPECIFICATION TSpec
CONSTANTS
  Keys = {}
  Vals = {}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
