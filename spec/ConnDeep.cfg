SPECIFICATION Spec
CONSTANTS Senders = {s1, s2}
 Closers = {c1}
 Count = 1
 Room = 2
INVARIANTS Whole InOrder Kept
PROPERTIES Ended Freed LostEnds
CHECK_DEADLOCK FALSE
