------------------------------ MODULE Retarget ------------------------------
(* The difficulty demanded of the next block, from the blocks below it.      *)
(* Blocks are given newest first as [ts |-> seconds, diff |-> BigNat].       *)
EXTENDS BigNat, FiniteSets

CONSTANTS Window,        \* blocks whose difficulty is averaged          60
          MedianOf,      \* blocks a median time is taken of             11
          Interval       \* wanted seconds between blocks                60

WindowTime == Window * Interval
Lower == WindowTime \div 2
Upper == WindowTime * 2

Median(s) == LET t == SortSeq(s, LAMBDA x, y : x < y) IN t[(Len(t) \div 2) + 1]
Times(bs, from, to) == [i \in 1..(to - from + 1) |-> bs[from + i - 1].ts]

\* from the blocks' median times: positive when time went by
Delta(bs) == Median(Times(bs, 1, MedianOf)) - Median(Times(bs, Window + 1, Window + MedianOf))
Clamp(x) == IF x < Lower THEN Lower ELSE IF x > Upper THEN Upper ELSE x
\* a quarter of the observed span plus three quarters of the wanted one
Damped(bs) == LET d == 3 * WindowTime + Delta(bs) IN Clamp(IF d < 0 THEN 0 ELSE d \div 4)

Average(bs) == NDiv(NSum([i \in 1..Window |-> bs[i].diff]), Window)

Demand(bs) ==
  IF Len(bs) = 0 THEN <<>>
  ELSE IF Len(bs) < Window + MedianOf THEN <<1>>
  ELSE LET d == NDiv(NMul(Average(bs), WindowTime), Damped(bs))
       IN  IF d = <<>> THEN <<1>> ELSE d
=============================================================================
