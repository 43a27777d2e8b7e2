SPECIFICATION Spec
CONSTANTS T = 3
 Events = 0
 MayBreak = TRUE
 Full = FALSE
INVARIANT Inv
