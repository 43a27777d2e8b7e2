SPECIFICATION GSpec
CONSTANTS
  Sids <- AllSids
  Kinds <- AllKinds
  MaxLinks = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
