SPECIFICATION Spec
CONSTANTS Addrs = {a, b, c}
 Max = 3
 Fails = 1
 Leaves = 1
INVARIANTS Slots Told Apart
PROPERTIES Reached ForGood NotDialled CutOff Stops NoneAfter
CHECK_DEADLOCK FALSE
