--------------------------- MODULE RetargetProps ----------------------------
(* What the retarget is for: chains grow block by block with any of a few    *)
(* intervals; the demand stays within a factor of two of the average, is     *)
(* stable at the wanted pace, and never answers slower blocks with a higher  *)
(* demand. A small window makes every chain enumerable.                      *)
EXTENDS Retarget, TLC
CONSTANTS Gaps, Diffs, Len0
GapsV == {-30, 60, 300}

VARIABLES chain
Init == chain = <<>>
Grow == /\ Len(chain) < Len0
        /\ \E g \in Gaps, d \in Diffs :
             chain' = <<[ts |-> (IF chain = <<>> THEN 0 ELSE chain[1].ts) + g, diff |-> NatOf(d)]>> \o chain
Spec == Init /\ [][Grow]_chain

Ready == Len(chain) >= Window + MedianOf
Floor == chain # <<>> => NLeq(<<1>>, Demand(chain))
Within == Ready => LET a == Average(chain) d == Demand(chain)
                   IN  /\ NLeq(d, NAdd(NMul(a, 2), <<1>>))
                       /\ NLeq(a, NAdd(NMul(d, 2), <<1>>))
\* at the wanted pace and a steady difficulty nothing changes
Steady == Ready /\ (\A i \in 1..(Len(chain) - 1) : chain[i].ts - chain[i + 1].ts = Interval)
                /\ (\A i \in 1..Len(chain) : chain[i].diff = chain[1].diff)
          => Demand(chain) = chain[1].diff
\* the same chain with its recent part later never demands more
Shift(bs, k, by) == [i \in DOMAIN bs |-> IF i <= k THEN [bs[i] EXCEPT !.ts = @ + by] ELSE bs[i]]
Monotone == Ready => \A by \in Gaps : by >= 0 => NLeq(Demand(Shift(chain, Window, by)), Demand(chain))
\* blocks beyond the window do not matter
Local == Ready => Demand(chain) = Demand(SubSeq(chain, 1, Window + MedianOf))
=============================================================================
