----------------------------- MODULE ChainProps -----------------------------
(* The chain as a state machine over a small universe of blocks: every       *)
(* store, every block to process, the audit walked step by step.             *)
EXTENDS Chain, TLC
CONSTANT Deep

G == [id |-> 1, hash |-> 1, prev |-> 9, height |-> 0, ts |-> 0, td |-> WOf(10), work |-> WOf(1), diff |-> WOf(1), valid |-> FALSE]
\* block number i of height i on hash i-1 or on an unknown one
Blk(i, prev, valid) == [G EXCEPT !.id = i, !.hash = i, !.prev = prev, !.height = i - 1, !.ts = i, !.td = WOf(9 + i), !.valid = valid]
MainChains == UNION {{[i \in 1..n |-> IF i = 1 THEN G ELSE Blk(i, c[i][1], c[i][2])] : c \in [1..n -> {1, 2, 3, 8} \X BOOLEAN]} : n \in 0..(IF Deep THEN 4 ELSE 3)}
Cands == [id : {7}, hash : {3, 7}, prev : {1, 2, 3, 8}, height : {1, 2, 3}, ts : {1, 2, 3, 4}, td : {WOf(11), WOf(12), WOf(13)},
          work : {WOf(1)}, diff : {WOf(0), WOf(1)}, valid : BOOLEAN]

VARIABLES s, head, cand, out, walk
vars == <<s, head, cand, out, walk>>
Init == /\ \E m \in MainChains : s = [main |-> m, side |-> <<>>, sideKnown |-> FALSE]
        /\ head = Tip(s, G) /\ cand = G /\ out = "none" /\ walk = <<"idle", G, 0>>
DoProcess == /\ out = "none" /\ walk[1] = "idle"
             /\ cand' \in Cands /\ out' = Process(s, G, cand')
             /\ UNCHANGED <<s, head, walk>>        \* applying a block is not implemented: accepted blocks change nothing
StartAudit == walk[1] = "idle" /\ out = "none" /\ walk' = <<"walk", head, 0>> /\ UNCHANGED <<s, head, cand, out>>
StepAudit ==
  /\ walk[1] = "walk"
  /\ LET b == walk[2]
         ps == {p \in Stored(s) : p.hash = b.prev}
     IN  IF b.hash = G.hash THEN walk' = <<"passed", b, walk[3]>>
         ELSE IF ~b.valid THEN walk' = <<"failed", b, walk[3]>>
         ELSE IF b.prev = G.hash THEN walk' = <<"passed", b, walk[3]>>
         ELSE IF ps = {} \/ walk[3] > Len(s.main) THEN walk' = <<"failed", b, walk[3]>>
         ELSE walk' = <<"walk", CHOOSE p \in ps : TRUE, walk[3] + 1>>
  /\ UNCHANGED <<s, head, cand, out>>
Next == DoProcess \/ StartAudit \/ StepAudit
Spec == Init /\ [][Next]_vars /\ WF_vars(StepAudit)

HeadIsLast == head = Tip(s, G)
AuditDecides == /\ walk[1] = "passed" => Audit(s, G)
                /\ walk[1] = "failed" => ~Audit(s, G)
AuditEnds == walk[1] = "walk" ~> walk[1] \in {"passed", "failed"}
OutcomeClear ==
  /\ out = "accepted" => cand.valid /\ \E p \in Stored(s) : p.hash = cand.prev /\ p.height + 1 = cand.height /\ cand.ts > p.ts
  /\ ~cand.valid /\ out # "none" => out = "refused"
  /\ out = "ignored" => cand.valid
\* what was there stays
Unchanged == [][s' = s /\ head' = head]_vars
\* an answer is a run of the main chain, right above a block named in the locator
HeadersFit == \A a \in {1, 2, 3, 8}, b \in {1, 2, 3, 8} :
  LET r == Headers(s, G, <<a, b>>)
  IN  r # <<>> => /\ \A i \in 1..(Len(r) - 1) : r[i + 1] = r[i] + 1
                  /\ r[1] - 1 \in {a, b}
                  /\ r[Len(r)] = head.id
                  /\ (a \in {x.hash : x \in Stored(s)} => r[1] - 1 = a)
=============================================================================
