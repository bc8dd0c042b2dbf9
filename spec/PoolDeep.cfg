SPECIFICATION Spec
CONSTANTS Addrs = {a, b, c}
 Max = 2
 Fails = 1
 Leaves = 1
INVARIANTS Slots Told Apart
PROPERTIES Returned ForGood NotDialled CutOff Stops NoneAfter
CHECK_DEADLOCK FALSE
