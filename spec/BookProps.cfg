SPECIFICATION Spec
CONSTANTS Ones = {1, 2}
 Groups <- G
 MaxBook = 3
 MaxList = 2
INVARIANTS Bounded Apart ForGood Always Same
CHECK_DEADLOCK FALSE
