SPECIFICATION MSpec
INVARIANT MEmit
CHECK_DEADLOCK FALSE
