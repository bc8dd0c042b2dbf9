SPECIFICATION Spec
CONSTANTS Q = 7
 Room = 3
INVARIANTS Complete StepsDecide NoSecond OneAnswer
CHECK_DEADLOCK FALSE
