SPECIFICATION Spec
CONSTANTS
  N = 14
  H = 1
  T = 3
  TH = 2
  MaxLive = 3
  Sizes = {1, 2, 4, 5, 9}
INVARIANTS Whole Room Unique Reclaimed
CHECK_DEADLOCK FALSE
