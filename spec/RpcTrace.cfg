SPECIFICATION TSpec
CONSTANT CHECK <- CheckSet
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
