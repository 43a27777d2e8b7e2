SPECIFICATION Spec
CONSTANTS
  NJ = 4
  NW = 2
  QCap = 1
PROPERTIES Refines Stops
