SPECIFICATION Spec
CONSTANTS Senders = {s1}
 Closers = {c1}
 Count = 2
 Room = 1
INVARIANTS Whole InOrder Kept
PROPERTIES Ended Freed LostEnds
CHECK_DEADLOCK FALSE
