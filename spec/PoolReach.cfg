SPECIFICATION Spec
CONSTANTS Addrs = {a, b}
 Max = 2
 Fails = 2
 Leaves = 2
INVARIANTS Slots Told Apart
PROPERTIES Reached ForGood NotDialled CutOff Stops NoneAfter
CHECK_DEADLOCK FALSE
