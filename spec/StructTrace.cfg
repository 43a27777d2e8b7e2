SPECIFICATION TSpec
CONSTANT Slots <- S3
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
