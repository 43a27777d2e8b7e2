SPECIFICATION Spec
CONSTANTS
 NS = 1
 NM = 0
 H = 2
 Lens = {2}
 B = 4
 Cap = 9
 Block = FALSE
 Wait = FALSE
 Vals = {0, 1, 2, 3, 4, 5}
 NRaw = 7
 Ends = TRUE
 Intr = 1
INVARIANT FramingInv

