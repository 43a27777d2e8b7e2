SPECIFICATION GSpec
CONSTANTS Depth = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
