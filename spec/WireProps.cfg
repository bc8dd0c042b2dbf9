SPECIFICATION Spec
INVARIANT Frames
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
