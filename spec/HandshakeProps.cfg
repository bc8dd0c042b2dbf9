SPECIFICATION Spec
CONSTANTS Attempts = {1, 2}
 Patience = 1
INVARIANTS OnlyGood NotOurselves Closed OnlyHandshake
PROPERTIES Bounded
CHECK_DEADLOCK FALSE
