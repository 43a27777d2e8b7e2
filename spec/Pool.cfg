SPECIFICATION PSpec
CONSTANTS
  Threads = {1, 2, 3}
  Buffers = {1, 2, 3}
INVARIANT OneOwner
PROPERTY NeverLost
CHECK_DEADLOCK FALSE
