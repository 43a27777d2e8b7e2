SPECIFICATION Spec
CONSTANTS
 Words = 3
 Bits = 4
INVARIANT Agree
PROPERTY Apart
CHECK_DEADLOCK FALSE
