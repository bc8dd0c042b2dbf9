------------------------------ MODULE BlockGen ------------------------------
(* The bodies the harness has to build from real proofs and signatures.      *)
(* An element: <<rank of its hash within the list, coinbase, ok>>.           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.DEEP = "1"

Kind == BOOLEAN \X BOOLEAN
Ranks(n) == [1..n -> 1..n]
Dense(r) == {r[i] : i \in DOMAIN r} = 1..Cardinality({r[i] : i \in DOMAIN r})
With(r, k) == [i \in DOMAIN r |-> <<r[i], k[i][1], k[i][2]>>]
Up(n) == [i \in 1..n |-> i]
Good(n) == [i \in 1..n |-> <<FALSE, TRUE>>]

\* ascending lists of any kinds
Kinds(n) == {With(Up(n), k) : k \in [1..n -> Kind]}
\* good elements in any order, with repetitions
Orders(n) == {With(r, Good(n)) : r \in {r \in Ranks(n) : Dense(r)}}
One == With(Up(1), Good(1))
Cb == <<<<1, TRUE, TRUE>>>>

N == IF Deep THEN 4 ELSE 3
Body(i, o, k) == [ins |-> i, outs |-> o, kers |-> k]
Bodies ==
  {Body(<<>>, o, One) : o \in UNION {Kinds(n) : n \in 0..N}}
  \cup {Body(One, Cb, k) : k \in UNION {Kinds(n) : n \in 0..N}}
  \cup {Body(i, One, Cb) : i \in UNION {Orders(n) : n \in 0..N}}
  \cup {Body(One, o, Cb) : o \in UNION {Orders(n) : n \in 1..3}}
  \cup {Body(<<>>, One, k) : k \in UNION {Orders(n) : n \in 1..N}}
  \* faults that could cancel out, or hide each other
  \cup {Body(i, o, k) : i \in Orders(2), o \in Kinds(1) \cup Orders(2), k \in Kinds(1) \cup Orders(2)}
\* long lists with one element that is faulty, a second coinbase, or out of place
Flaw(n, at, what) ==
  [i \in 1..n |-> IF i # at THEN <<i, i = 1 /\ what = "coinbase", TRUE>>
                  ELSE CASE what = "faulty" -> <<i, FALSE, FALSE>>
                         [] what = "coinbase" -> <<i, TRUE, TRUE>>
                         [] what = "place" -> <<IF i = n THEN 1 ELSE i + 1, FALSE, TRUE>>
                         [] what = "none" -> <<i, FALSE, TRUE>>]
Flaws == {"faulty", "coinbase", "place", "none"}
Long ==
  {Body(<<>>, Flaw(n, at, w), One) : n \in {6}, at \in {1, 3, 6}, w \in Flaws}
  \cup {Body(One, One, Flaw(n, at, w)) : n \in {5, 12, 33}, at \in {1, 4, 5}, w \in Flaws}
  \cup {Body(One, One, Flaw(n, n, w)) : n \in {9, 12, 33}, w \in Flaws}
  \cup {Body(Flaw(n, at, w), One, One) : n \in {5, 40}, at \in {1, 3, 5}, w \in {"place", "none"}}
  \cup {Body(Flaw(n, n, w), One, One) : n \in {13, 40}, w \in {"place", "none"}}
  \cup (IF Deep THEN {Body(<<>>, Flaw(n, n, w), One) : n \in {10, 20}, w \in Flaws} ELSE {})
Out == SetToSeq(Bodies \cup Long)
ASSUME JsonSerialize(IOEnv.OUT, Out) /\ PrintT(<<"COUNT", Len(Out)>>)
=============================================================================
