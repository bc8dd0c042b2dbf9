SPECIFICATION Spec
CONSTANTS Users = {u1, u2}
          Often = 1
INVARIANTS OneAtATime AsInOneStep OneTip
PROPERTIES EverybodyReturns Unchanged
CHECK_DEADLOCK FALSE
