SPECIFICATION RSpec
CONSTANTS
  Sids = {0, 1, 2}
  Kinds = {0, 1, 3}
  MaxLinks = 2
INVARIANTS TypeOK FewLinks Control Down
PROPERTIES RefusedIsNothing FirstStays LinksStay
CHECK_DEADLOCK FALSE
