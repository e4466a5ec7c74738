SPECIFICATION Spec
INVARIANTS Sizes OneField
CHECK_DEADLOCK FALSE
