SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Buffers = {1, 2, 3}
  Cap0 = 1
  CapMax = 4
INVARIANT Owner
PROPERTY Refines
CHECK_DEADLOCK FALSE
