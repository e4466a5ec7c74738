SPECIFICATION Spec
CONSTANTS Depth = 5
  Sats = {1, 2}
INVARIANTS OneIssue Complete UsedUp
CHECK_DEADLOCK FALSE
