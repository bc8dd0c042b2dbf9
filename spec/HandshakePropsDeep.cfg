SPECIFICATION Spec
CONSTANTS Attempts = {1, 2, 3}
 Patience = 1
INVARIANTS OnlyGood NotOurselves Closed OnlyHandshake
CHECK_DEADLOCK FALSE
