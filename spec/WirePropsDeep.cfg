SPECIFICATION Spec
INVARIANT Frames
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
