SPECIFICATION Spec
CONSTANTS Window = 3
MedianOf = 3
Interval = 60
Gaps <- GapsV
Diffs = {3, 500}
Len0 = 7
INVARIANTS Floor Within Steady Monotone Local
CHECK_DEADLOCK FALSE
