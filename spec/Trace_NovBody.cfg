SPECIFICATION TraceSpec
CONSTANT CheckBody = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
