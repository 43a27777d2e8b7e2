SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Vals = {0}
  MinCap = 2
  GrowPct = 75
  ShrinkPct = 20
  MaxHash = 2
  MaxCap = 8
INVARIANTS OneSlot ProbeOK RoomLeft
PROPERTY Refines
CHECK_DEADLOCK FALSE
