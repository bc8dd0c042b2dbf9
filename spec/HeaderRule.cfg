SPECIFICATION Spec
INVARIANTS Decides OneVersion
CHECK_DEADLOCK FALSE
