SPECIFICATION Spec
CONSTANTS
  NR = 2
  NW = 2
  Rounds = 2
INVARIANT Excl
PROPERTIES Refines Ends
