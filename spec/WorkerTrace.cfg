SPECIFICATION TSpec
CONSTANTS
  Jobs = {}
  Workers = {0,1,2,3,4,5,6,7,8,9}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
