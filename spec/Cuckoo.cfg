SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Decides Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
