SPECIFICATION TSpec2
CONSTANTS
  Threads = {0, 1, 2, 3, 4}
  Buffers = {}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
