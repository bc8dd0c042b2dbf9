SPECIFICATION Spec
CONSTANTS Addrs = {a, b}
 Max = 1
 Fails = 2
 Leaves = 2
INVARIANTS Slots Told Apart
PROPERTIES Returned ForGood NotDialled CutOff Stops NoneAfter
CHECK_DEADLOCK FALSE
