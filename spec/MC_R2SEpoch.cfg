SPECIFICATION Spec
CONSTANTS Depth = 4
  Steps = {1000, 4000, 5000}
  PerMessage = 8
INVARIANTS Pure Numbered Once OneEpoch
PROPERTIES LostOnlyThere
CHECK_DEADLOCK FALSE
