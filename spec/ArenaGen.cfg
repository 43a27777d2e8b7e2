SPECIFICATION GSpec
CONSTANTS Depth = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
