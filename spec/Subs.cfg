SPECIFICATION Spec
CONSTANTS
 Words = 3
 Bits = 3
INVARIANT Agree
PROPERTY Apart
CHECK_DEADLOCK FALSE
