SPECIFICATION Spec
CONSTANTS Q = 5
 Room = 3
INVARIANTS Complete StepsDecide NoSecond OneAnswer
CHECK_DEADLOCK FALSE
