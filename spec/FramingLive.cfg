SPECIFICATION Spec
CONSTANTS
 NS = 2
 NM = 1
 H = 2
 Lens = {2, 4}
 B = 4
 Cap = 3
 Block = TRUE
 Wait = FALSE
 Vals = {}
 NRaw = 0
 Ends = FALSE
 Intr = 0
INVARIANT FramingInv
PROPERTY Delivered
