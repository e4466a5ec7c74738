SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
  OpsEach = 1
  Times <- SomeTimes
  Record = FALSE
INVARIANTS Honest Latest
PROPERTIES Forward
CHECK_DEADLOCK FALSE
