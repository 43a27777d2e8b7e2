SPECIFICATION Spec
CONSTANTS
  NJ = 5
  NW = 2
  QCap = 2
PROPERTIES Refines Stops
