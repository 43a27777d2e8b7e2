SPECIFICATION Spec
CONSTANTS
 NS = 2
 NM = 2
 H = 2
 Lens = {2, 3}
 B = 4
 Cap = 3
 Block = TRUE
 Wait = FALSE
 Vals = {}
 NRaw = 0
 Ends = FALSE
 Intr = 0
INVARIANT FramingInv
PROPERTY Delivered
