------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as sequences of 16-bit limbs, least          *)
(* significant first. A Word64 is a BigNat of four limbs.                    *)
EXTENDS Integers, Sequences, SequencesExt

BB == 65536
LimbAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o NatOf(n \div BB)      \* 0 <= n < 2^31

\* carry out limbs of up to 2^31 - 2^16
Carry(s) ==
  LET r == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x + acc[2]) % BB), (x + acc[2]) \div BB>>, <<<<>>, 0>>, s)
  IN  Trim(r[1] \o NatOf(r[2]))

Max2(a, b) == IF a > b THEN a ELSE b
NAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> LimbAt(a, i) + LimbAt(b, i)])
NSum(s) == FoldLeft(NAdd, <<>>, s)
NMul(a, k) == Carry([i \in DOMAIN a |-> a[i] * k])                      \* k < 2^14

\* division by a small number: quotient of limbs from the most significant down
NDiv(a, k) ==                                                           \* 0 < k < 2^14
  LET n == Len(a)
      r == FoldLeft(LAMBDA acc, x : <<<<(acc[2] * BB + x) \div k>> \o acc[1], (acc[2] * BB + x) % k>>,
                    <<<<>>, 0>>, [i \in 1..n |-> a[n + 1 - i]])
  IN  Trim(r[1])

NLess(a, b) ==
  LET x == Trim(a)  y == Trim(b)
  IN  \/ Len(x) < Len(y)
      \/ /\ Len(x) = Len(y)
         /\ LET d == SelectLastInSeq([i \in 1..Len(x) |-> x[i] # y[i]], LAMBDA t : t)
            IN  d # 0 /\ x[d] < y[d]
NShift(a, n) == [i \in 1..(n + Len(a)) |-> IF i <= n THEN 0 ELSE a[i - n]]
NTimes(a, b) == NSum([i \in DOMAIN b |-> NShift(NAdd(NMul(a, b[i] % 256), NMul(NMul(a, b[i] \div 256), 256)), i - 1)])
NEq(a, b) == Trim(a) = Trim(b)
NLeq(a, b) == ~NLess(b, a)
=============================================================================
