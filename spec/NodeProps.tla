----------------------------- MODULE NodeProps ------------------------------
(* The node as concurrent processes, in the steps it really takes: a reader  *)
(* for every peer, a chain that changes under its lock, and senders that     *)
(* carry a block to other peers. What module Node says in one step has to    *)
(* come out of every interleaving.                                           *)
EXTENDS Node, TLC
CONSTANTS Peers, Sends, Moves, Theme

V(x) == WOf(x)
Messages ==
  CASE Theme = "answers" -> {[k |-> "ping", h |-> V(2), td |-> V(2)], [k |-> "getblock", id |-> 1], [k |-> "getblock", id |-> 9], [k |-> "pong", h |-> V(1), td |-> V(1)]}
    [] Theme = "blocks" -> {[k |-> "ping", h |-> V(x), td |-> V(x)] : x \in {0, 2}}
                           \cup {[k |-> "block", id |-> 0, ok |-> ok, h |-> V(1), td |-> V(1)] : ok \in BOOLEAN}
    [] Theme = "offences" -> {[k |-> "block", id |-> 0, ok |-> ok, h |-> V(1), td |-> V(1)] : ok \in BOOLEAN}
                             \cup {[k |-> "headers", ok |-> FALSE], [k |-> "header", ok |-> FALSE], [k |-> "tx", ok |-> FALSE], [k |-> "malformed"], [k |-> "ping", h |-> V(2), td |-> V(0)]}

VARIABLES
  n,          \* the node
  inbox,      \* messages under way to it, by peer
  step,       \* where the reader of a peer is
  cur,        \* the message it is at
  seen,       \* the half of the chain's tip it has read
  out,        \* what has been handed over for a peer
  tasks,      \* blocks on their way to peers
  lock,       \* who writes the chain: "free" or "half"
  tips,       \* tips the chain has had
  hist        \* messages each peer's reader has finished
vars == <<n, inbox, step, cur, seen, out, tasks, lock, tips, hist>>

Nobody == [k |-> "none"]
Init ==
  /\ n = [peers |-> [p \in Peers |-> [st |-> "connected", open |-> TRUE, h |-> V(0), td |-> V(0), caps |-> {}]],
          chain |-> [h |-> V(1), td |-> V(1)], blocks |-> {1}, txs |-> TRUE]
  /\ inbox = [p \in Peers |-> <<>>] /\ step = [p \in Peers |-> "read"] /\ cur = [p \in Peers |-> Nobody] /\ seen = [p \in Peers |-> V(0)]
  /\ out = [p \in Peers |-> <<>>] /\ tasks = {} /\ lock = "free" /\ tips = <<[h |-> V(1), td |-> V(1)]>> /\ hist = [p \in Peers |-> <<>>]

Count(p) == Len(inbox[p]) + Len(hist[p]) + (IF cur[p] = Nobody THEN 0 ELSE 1)
\* blocks carry who sent them and which message it was
Mark(p, m) == IF m.k = "block" THEN [m EXCEPT !.id = 10 * p + Count(p)] ELSE m
Send(p, m) == /\ Count(p) < Sends /\ n.peers[p].open
              /\ inbox' = [inbox EXCEPT ![p] = Append(@, Mark(p, m))]
              /\ UNCHANGED <<n, step, cur, seen, out, tasks, lock, tips, hist>>

\* the chain moves on: height first, then difficulty, both under the lock
Reading == \E p \in Peers : step[p] = "half"
MoveOn == /\ lock = "free" /\ ~Reading /\ Len(tips) <= Moves
          /\ lock' = "half" /\ n' = [n EXCEPT !.chain.h = V(1 + Len(tips))]
          /\ UNCHANGED <<inbox, step, cur, seen, out, tasks, tips, hist>>
MoveEnd == /\ lock = "half"
           /\ lock' = "free" /\ n' = [n EXCEPT !.chain.td = V(1 + Len(tips))] /\ tips' = Append(tips, n'.chain)
           /\ UNCHANGED <<inbox, step, cur, seen, out, tasks, hist>>

Goto(p, s) == step' = [step EXCEPT ![p] = s]
Done(p) == /\ step' = [step EXCEPT ![p] = "read"] /\ cur' = [cur EXCEPT ![p] = Nobody] /\ hist' = [hist EXCEPT ![p] = Append(@, cur[p])]
Say(p, m) == out' = [out EXCEPT ![p] = IF n.peers[p].open THEN Append(@, m) ELSE @]

Read(p) == /\ step[p] = "read" /\ n.peers[p].open /\ inbox[p] # <<>>
           /\ cur' = [cur EXCEPT ![p] = Head(inbox[p])] /\ inbox' = [inbox EXCEPT ![p] = Tail(@)] /\ Goto(p, "judge")
           /\ UNCHANGED <<n, seen, out, tasks, lock, tips, hist>>
Deal(p) ==
  LET f == cur[p] IN
  /\ step[p] = "judge"
  /\ CASE f.k \in Broken \/ Offence(n, f) ->          \* the connection goes, and with an offence the address
            /\ n' = After(n, p, f) /\ Done(p) /\ UNCHANGED <<out, seen>>
       [] f.k = "ping" -> n' = Told(n, p, f.h, f.td) /\ Goto(p, "tip") /\ UNCHANGED <<out, cur, hist, seen>>
       [] f.k = "block" -> n' = Raised(n, p, f) /\ Goto(p, "spread") /\ UNCHANGED <<out, cur, hist, seen>>
       [] OTHER -> n' = After(n, p, f) /\ Done(p) /\ out' = [out EXCEPT ![p] = @ \o Answer(n, p, f)] /\ UNCHANGED seen
  /\ UNCHANGED <<inbox, tasks, lock, tips>>
TipHeight(p) == /\ step[p] = "tip" /\ lock = "free" /\ seen' = [seen EXCEPT ![p] = n.chain.h] /\ Goto(p, "half")
                /\ UNCHANGED <<n, inbox, cur, out, tasks, lock, tips, hist>>
TipRest(p) == /\ step[p] = "half" /\ Say(p, [k |-> "pong", h |-> seen[p], td |-> n.chain.td]) /\ Done(p)
              /\ UNCHANGED <<n, inbox, seen, tasks, lock, tips>>
Spread(p) == /\ step[p] = "spread"
             /\ tasks' = tasks \cup {<<q, cur[p]>> : q \in (IF cur[p].h = n.chain.h THEN {q \in Online(n) : Lacks(n.peers[q], cur[p])} ELSE {})}
             /\ Done(p)
             /\ UNCHANGED <<n, inbox, seen, out, lock, tips>>
Carry(t) == /\ t \in tasks /\ tasks' = tasks \ {t} /\ Say(t[1], [k |-> "block", id |-> t[2].id])
            /\ UNCHANGED <<n, inbox, step, cur, seen, lock, tips, hist>>

Work(p) == Read(p) \/ Deal(p) \/ TipHeight(p) \/ TipRest(p) \/ Spread(p)
Next == (\E p \in Peers, m \in Messages : Send(p, m)) \/ MoveOn \/ MoveEnd \/ (\E p \in Peers : Work(p)) \/ (\E t \in tasks : Carry(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(MoveEnd) /\ \A p \in Peers : WF_vars(Work(p)) /\ WF_vars(\E t \in tasks : t[1] = p /\ Carry(t))

-----------------------------------------------------------------------------
Elems(s) == {s[i] : i \in DOMAIN s}
IsAnswer(m) == m.k # "block" \/ m.id < 10
\* C14: answers follow the requests, one each, and pongs tell of tips that were
Asked(p) == FoldLeft(LAMBDA s, f : s \o (IF f.k = "ping" THEN <<"pong">> ELSE IF f.k = "getblock" /\ f.id \in n.blocks THEN <<"block">> ELSE <<>>), <<>>, hist[p])
InOrder == \A p \in Peers : LET got == SelectSeq(out[p], IsAnswer)
                            IN  /\ [i \in DOMAIN got |-> got[i].k] = Asked(p)
                                /\ \A i \in DOMAIN got : got[i].k = "pong" => [h |-> got[i].h, td |-> got[i].td] \in Elems(tips)
AllAnswered == \A p \in Peers : (step[p] = "tip") ~> (step[p] = "read" \/ ~n.peers[p].open)
\* C19
Arrived(q) == SelectSeq(out[q], LAMBDA m : ~IsAnswer(m))
Accepted == {f \in UNION {Elems(hist[p]) \cup {cur[p]} : p \in Peers} : f.k = "block" /\ f.ok}
Passed == \A q \in Peers : LET a == Arrived(q)
                           IN  /\ \A i \in DOMAIN a : a[i].id \in {f.id : f \in Accepted} /\ a[i].id \div 10 # q     \* accepted, and never back
                               /\ \A i, j \in DOMAIN a : a[i].id = a[j].id => i = j                                  \* once
Spreads == \A q \in Peers : (\E t \in tasks : t[1] = q) ~> ~(\E t \in tasks : t[1] = q)
\* C20: the record is what the peer's own messages make of it
Own(p) == LET start == [n EXCEPT !.peers[p] = [@ EXCEPT !.h = V(0), !.td = V(0), !.open = TRUE, !.st = "connected"]]
          IN  FoldLeft(LAMBDA x, f : After(x, p, f), start, IF step[p] \in {"tip", "half", "spread"} THEN Append(hist[p], cur[p]) ELSE hist[p]).peers[p]
OwnRecord == \A p \in Peers : n.peers[p].h = Own(p).h /\ n.peers[p].td = Own(p).td
\* C21 and C12: connections end by their own peer's doing only
Culprit == \A p \in Peers : /\ n.peers[p].open = (\A f \in Elems(hist[p]) : ~(f.k \in Broken \/ Offence(n, f)))
                            /\ (n.peers[p].st = "none") = (\E f \in Elems(hist[p]) : Offence(n, f))
NothingAfter == \A p \in Peers : \A i \in DOMAIN hist[p] : hist[p][i].k \in Broken \/ Offence(n, hist[p][i]) => i = Len(hist[p]) /\ cur[p] = Nobody
=============================================================================
