SPECIFICATION GSpec
CONSTANTS Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
