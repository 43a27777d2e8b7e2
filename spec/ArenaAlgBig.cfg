SPECIFICATION Spec
CONSTANTS
  N = 20
  H = 1
  T = 3
  TH = 2
  MaxLive = 4
  Sizes = {1, 2, 3, 5, 7, 12}
INVARIANTS Whole Room Unique Reclaimed
CHECK_DEADLOCK FALSE
