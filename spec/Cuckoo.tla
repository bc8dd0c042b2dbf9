------------------------------- MODULE Cuckoo -------------------------------
(* When is a list of edge numbers a proof of work?                           *)
(*                                                                           *)
(* A proof names edges of a bipartite graph by number.  It is accepted       *)
(* exactly when the numbers ascend strictly, all lie below the limit, and    *)
(* the edges form ONE SIMPLE CYCLE.                                          *)
(*                                                                           *)
(* The module has the declarative rule (ProofOk) and the walk the code makes *)
(* along the edges (Init/Next); TLC shows for every shape of up to MaxLen    *)
(* edges that the walk decides the rule.                                     *)
EXTENDS Integers, Sequences, FiniteSets

-----------------------------------------------------------------------------
(* The rule *)

Deg(x, i) == Cardinality({j \in DOMAIN x : x[j] = x[i]})

\* u[i], v[i]: the end points of edge i on the two sides
RECURSIVE Grow(_, _, _)
Grow(u, v, S) ==
  LET T == {j \in DOMAIN u : \E i \in S : u[i] = u[j] \/ v[i] = v[j]}
  IN  IF T = S THEN S ELSE Grow(u, v, T)

SimpleCycle(u, v) ==
  /\ Len(u) > 0
  /\ \A i \in DOMAIN u : Deg(u, i) = 2 /\ Deg(v, i) = 2
  /\ Grow(u, v, {1}) = DOMAIN u

Ascending(p) == \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
InRange(p, limit) == \A i \in DOMAIN p : p[i] < limit

ProofOk(p, limit, u, v) == Ascending(p) /\ InRange(p, limit) /\ SimpleCycle(u, v)

-----------------------------------------------------------------------------
(* All shapes of n edges: labels of each side in order of first appearance *)

RECURSIVE Rgs(_)
Rgs(n) == IF n = 0 THEN {<<>>}
          ELSE {Append(r, l) : r \in Rgs(n - 1), l \in 1..n} \cap
               {s \in [1..n -> 1..n] : \A i \in 1..n : s[i] <= 1 + Cardinality({s[j] : j \in 1..(i - 1)})}
NoSingle(x) == \A i \in DOMAIN x : Deg(x, i) >= 2

-----------------------------------------------------------------------------
(* The walk *)
CONSTANT MaxLen
VARIABLES u, v, at, cycle, usedU, usedV, pc
vars == <<u, v, at, cycle, usedU, usedV, pc>>

N == Len(u)
Branches == \E i \in 1..N : Deg(u, i) > 2 \/ Deg(v, i) > 2

Init ==
  /\ \E n \in 1..MaxLen : \E x \in Rgs(n), y \in Rgs(n) :
       /\ n = MaxLen /\ n > 4 => NoSingle(x) /\ NoSingle(y)
       /\ u = x /\ v = y
  /\ at = 1 /\ cycle = 0
  /\ usedU = {} /\ usedV = {}
  /\ pc = IF Branches THEN "stop" ELSE "walk"

\* on even steps look for an edge at the same u, on odd steps at the same v
Step(x, used) == {j \in 1..N : j # at /\ j \notin used /\ x[j] = x[at]}

Walk ==
  /\ pc = "walk"
  /\ LET even == cycle % 2 = 0
         opts == IF even THEN Step(u, usedU) ELSE Step(v, usedV)
     IN  IF opts = {} THEN pc' = "stop" /\ UNCHANGED <<at, cycle, usedU, usedV>>
         ELSE \E j \in opts :            \* the code takes the first, the claim holds for any
                /\ at' = j /\ cycle' = cycle + 1 /\ pc' = pc
                /\ usedU' = IF even THEN usedU \cup {at, j} ELSE usedU
                /\ usedV' = IF even THEN usedV ELSE usedV \cup {at, j}
  /\ UNCHANGED <<u, v>>

Next == Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the walk decides the rule
Decides == pc = "stop" => ((cycle = N) <=> SimpleCycle(u, v))
Bounded == cycle <= N
Ends == <>(pc = "stop")
=============================================================================
