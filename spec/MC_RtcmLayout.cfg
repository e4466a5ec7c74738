SPECIFICATION Spec
INVARIANTS Sizes Increasing
CHECK_DEADLOCK FALSE
