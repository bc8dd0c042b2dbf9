SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Decides
CHECK_DEADLOCK FALSE
