SPECIFICATION TSpec
CONSTANTS Threads = {0,1,2,3,4,5,6,7}
INVARIANT Exclusion
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
