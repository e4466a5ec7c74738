SPECIFICATION Spec
CONSTANTS Depth = 3
  Senders = {1, 4098}
  Times = {0, 1}
  Sizes = {1, 2}
  Counts = {1, 2, 3}
  Most = {0, 2}
  MaxObs <- Three
  Legacy = FALSE
  Orderly = FALSE
  Emit = FALSE
INVARIANTS Pure Once Chained OneEpoch Room Sound Whole
PROPERTIES LostRight
CHECK_DEADLOCK FALSE
