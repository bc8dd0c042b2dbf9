----------------------------- MODULE ChainShared -----------------------------
(* The chain used by many at once, in the steps it takes: who processes a    *)
(* block or audits holds the lock alone, who asks for headers shares it with *)
(* others, lookups and questions for head, height and total difficulty take  *)
(* no lock. Every operation has to come to the answer module Chain gives in  *)
(* one step, everybody sees the one tip at any time, and everybody returns.  *)
EXTENDS Chain, TLC
CONSTANTS Users, Often       \* operations each

G == [id |-> 1, hash |-> 1, prev |-> 9, height |-> 0, ts |-> 0, td |-> WOf(10), work |-> WOf(1), diff |-> WOf(1), valid |-> FALSE]
Blk(i, valid) == [G EXCEPT !.id = i, !.hash = i, !.prev = i - 1, !.height = i - 1, !.ts = i, !.td = WOf(9 + i), !.valid = valid]
Stores == {[main |-> [i \in 1..n |-> IF i = 1 THEN G ELSE Blk(i, v)], side |-> <<>>, sideKnown |-> FALSE] : n \in 0..3, v \in BOOLEAN}
Cands == IF Cardinality(Users) > 2 THEN {[Blk(7, v) EXCEPT !.hash = 7, !.prev = 2, !.height = 2, !.ts = 4, !.td = WOf(12)] : v \in BOOLEAN} ELSE {[Blk(7, v) EXCEPT !.hash = h, !.prev = p, !.height = 2, !.ts = t, !.td = WOf(12)] : v \in BOOLEAN, h \in {3, 7}, p \in {2, 8}, t \in {1, 4}}
Ops == {<<"process", c>> : c \in Cands} \cup {<<"audit", G>>, <<"headers", G>>, <<"look", G>>}
Loc == <<2>>

VARIABLES s, op, pc, at, ans, left, writer, readers, told
vars == <<s, op, pc, at, ans, left, writer, readers, told>>
Init == /\ s \in Stores /\ writer = {} /\ readers = {} /\ told = [u \in Users |-> <<>>]
        /\ op = [u \in Users |-> <<"none", G>>] /\ pc = [u \in Users |-> "idle"] /\ at = [u \in Users |-> G]
        /\ ans = [u \in Users |-> "none"] /\ left = [u \in Users |-> Often]
To(u, p) == pc' = [pc EXCEPT ![u] = p]
Start(u) == /\ pc[u] = "idle" /\ left[u] > 0 /\ \E o \in Ops : op' = [op EXCEPT ![u] = o] /\ To(u, IF o[1] = "look" THEN "look" ELSE "lock")
            /\ left' = [left EXCEPT ![u] = @ - 1] /\ UNCHANGED <<s, at, ans, writer, readers, told>>
Lock(u) == /\ pc[u] = "lock" /\ writer = {}
           /\ IF op[u][1] = "headers" THEN readers' = readers \cup {u} /\ UNCHANGED writer
              ELSE readers = {} /\ writer' = {u} /\ UNCHANGED readers
           /\ To(u, "work") /\ at' = [at EXCEPT ![u] = IF op[u][1] = "audit" THEN Tip(s, G) ELSE op[u][2]]
           /\ UNCHANGED <<s, op, ans, left, told>>
Answer(u, a) == ans' = [ans EXCEPT ![u] = a] /\ To(u, "unlock") /\ UNCHANGED <<s, op, at, left, writer, readers, told>>
Move(u, p, b) == To(u, p) /\ at' = [at EXCEPT ![u] = b] /\ UNCHANGED <<s, op, ans, left, writer, readers, told>>
Work(u) ==
  LET b == at[u]
      c == op[u][2]
      ps == {p \in Stored(s) : p.hash = b.prev}
  IN  \/ pc[u] = "work" /\ op[u][1] = "headers" /\ Answer(u, ToString(Headers(s, G, Loc)))
      \/ pc[u] = "work" /\ op[u][1] = "process" /\ IF ~c.valid THEN Answer(u, "refused") ELSE Move(u, "known", c)
      \/ pc[u] = "known" /\ IF c.hash = Tip(s, G).hash THEN Answer(u, "ignored") ELSE Move(u, "parent", c)
      \/ pc[u] = "parent" /\ IF Parents(s, c) = {} THEN Answer(u, "ignored") ELSE Move(u, "fits", CHOOSE p \in Parents(s, c) : TRUE)
      \/ pc[u] = "fits" /\ Answer(u, IF Fits(s, c, b) THEN "accepted" ELSE "refused")
      \/ pc[u] = "work" /\ op[u][1] = "audit"
         /\ IF b.hash = G.hash THEN Answer(u, "passed") ELSE IF ~b.valid THEN Answer(u, "failed")
            ELSE IF b.prev = G.hash THEN Answer(u, "passed") ELSE IF ps = {} THEN Answer(u, "failed") ELSE Move(u, "work", CHOOSE p \in ps : TRUE)
Unlock(u) == /\ pc[u] = "unlock" /\ writer' = writer \ {u} /\ readers' = readers \ {u} /\ To(u, "idle")
             /\ UNCHANGED <<s, op, at, ans, left, told>>
\* height and total difficulty are asked for one after the other
Look(u) == /\ pc[u] = "look" /\ LET h == Tip(s, G) IN told' = [told EXCEPT ![u] = <<h.height>>]
           /\ To(u, "look2") /\ UNCHANGED <<s, op, at, ans, left, writer, readers>>
Look2(u) == /\ pc[u] = "look2" /\ LET h == Tip(s, G) IN told' = [told EXCEPT ![u] = Append(@, h.td)]
            /\ To(u, "idle") /\ UNCHANGED <<s, op, at, ans, left, writer, readers>>
Step(u) == Start(u) \/ Lock(u) \/ Work(u) \/ Unlock(u) \/ Look(u) \/ Look2(u)
Next == \E u \in Users : Step(u)
Spec == Init /\ [][Next]_vars /\ \A u \in Users : SF_vars(Lock(u)) /\ WF_vars(Work(u) \/ Unlock(u) \/ Look(u) \/ Look2(u))

OneAtATime == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
AsInOneStep == \A u \in Users : pc[u] = "unlock" =>
  ans[u] = CASE op[u][1] = "process" -> Process(s, G, op[u][2]) [] op[u][1] = "audit" -> (IF Audit(s, G) THEN "passed" ELSE "failed") [] OTHER -> ToString(Headers(s, G, Loc))
OneTip == \A u \in Users : Len(told[u]) = 2 => told[u] = <<Tip(s, G).height, Tip(s, G).td>>
EverybodyReturns == \A u \in Users : pc[u] # "idle" ~> pc[u] = "idle"
Unchanged == [][s' = s]_vars
=============================================================================
