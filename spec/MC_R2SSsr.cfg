SPECIFICATION Spec
CONSTANTS Depth = 3
  Sats = {3, 7}
INVARIANTS Joined Shared
CHECK_DEADLOCK FALSE
