SPECIFICATION TraceSpec
CONSTANT CheckBody = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
