SPECIFICATION Spec
CONSTANTS
 NS = 2
 NM = 2
 H = 2
 Lens = {2, 4}
 B = 4
 Cap = 3
 Block = FALSE
 Wait = FALSE
 Vals = {}
 NRaw = 0
 Ends = TRUE
 Intr = 1
INVARIANT FramingInv

