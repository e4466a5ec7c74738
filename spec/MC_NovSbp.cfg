SPECIFICATION Spec
CONSTANTS Depth = 4
 Logs = {"pos", "none", "vel", "att", "imu", "bad", "odd"}
 Steps <- MCSteps
 Starts <- MCStarts
 Emit = FALSE
INVARIANTS TimeFirst TimesDiffer FlagsTrue RateTrue AuxComes NoBad
PROPERTY AuxSpaced
CHECK_DEADLOCK FALSE
