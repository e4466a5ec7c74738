SPECIFICATION Spec
CONSTANTS Grid = 3600000
  Far = 83
INVARIANTS WeekOk BdsOk GloOk DiffOk LaterOk
CHECK_DEADLOCK FALSE
