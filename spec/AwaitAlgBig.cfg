SPECIFICATION Spec
CONSTANTS T = 2
 Events = 1
 MayBreak = TRUE
 Full = TRUE
INVARIANT Inv
PROPERTIES HeldOut ReadersOut Pumped
