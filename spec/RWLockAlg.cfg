SPECIFICATION Spec
CONSTANTS
  NR = 2
  NW = 2
  Rounds = 1
INVARIANT Excl
PROPERTIES Refines Ends
