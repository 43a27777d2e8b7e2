SPECIFICATION TSpec
CONSTANTS
  Sids <- AllSids
  Kinds <- AllKinds
  MaxLinks = 4
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
