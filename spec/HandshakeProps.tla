--------------------------- MODULE HandshakeProps ---------------------------
(* A node that dials and is dialled, several times at once, by others that   *)
(* send whatever they like or have seen, in parts and at any pace.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Attempts,     \* attempts, of either role
          Patience      \* ticks until an attempt is given up
Nonces == {"n1", "n2"}                             \* our own nonces, used in turn
Parts(role) == IF role = "out" THEN <<"head", "version", "genesis">> ELSE <<"head", "version", "nonce", "genesis">>
VARIABLES a, next, seen
vars == <<a, next, seen>>

Init == /\ a \in {f \in [Attempts -> [role : {"out", "in"}, st : {"new"}, got : {<<>>}, over : {FALSE}, sent : {<<>>}, left : {Patience}, open : {TRUE}]] : TRUE}
        /\ next = "n1" /\ seen = {}
Other(n) == IF n = "n1" THEN "n2" ELSE "n1"
Wait(i) == a[i].st = "wait"
\* we dial, and say who we are; or somebody dials us
Begin(i) == /\ a[i].st = "new"
            /\ IF a[i].role = "out" THEN a' = [a EXCEPT ![i].st = "wait", ![i].sent = <<"hand">>] /\ next' = Other(next) /\ seen' = seen \cup {next}
                                    ELSE a' = [a EXCEPT ![i].st = "wait"] /\ UNCHANGED <<next, seen>>
\* the other side sends its next part: right, wrong, or a nonce it knows of
Values(part) == IF part = "nonce" THEN {"foreign"} \cup seen ELSE {"good", "bad"}
RECURSIVE Known(_, _)
Known(i, k) == IF k > Len(a[i].got) THEN TRUE ELSE a[i].got[k] \in {"good", "foreign"} \cup Nonces /\ Known(i, k + 1)
Send(i) == /\ a[i].st \in {"wait"} /\ ~a[i].over /\ Len(a[i].got) < Len(Parts(a[i].role))
           /\ \E v \in Values(Parts(a[i].role)[Len(a[i].got) + 1]) : a' = [a EXCEPT ![i].got = Append(@, v)]
           /\ UNCHANGED <<next, seen>>
HangUp(i) == /\ a[i].st \in {"new", "wait"} /\ ~a[i].over /\ a' = [a EXCEPT ![i].over = TRUE] /\ UNCHANGED <<next, seen>>
\* time passes
Tick == /\ (\E i \in Attempts : Wait(i) /\ a[i].left > 0)
        /\ a' = [i \in Attempts |-> IF Wait(i) /\ a[i].left > 0 THEN [a[i] EXCEPT !.left = @ - 1] ELSE a[i]]
        /\ UNCHANGED <<next, seen>>
Fail(i) == a' = [a EXCEPT ![i].st = "failed", ![i].open = IF a[i].role = "out" THEN FALSE ELSE @]
Wrong(g) == \E k \in DOMAIN g : g[k] = "bad" \/ g[k] \in Nonces
Complete(i) == Len(a[i].got) = Len(Parts(a[i].role))
Decide(i) ==
  /\ Wait(i)
  /\ \/ "bad" \in {a[i].got[k] : k \in DOMAIN a[i].got} /\ Fail(i)      \* a wrong part may end it early
     \/ Complete(i) /\ Wrong(a[i].got) /\ Fail(i)
     \/ (a[i].over \/ a[i].left = 0) /\ ~Complete(i) /\ Fail(i)
     \/ Complete(i) /\ ~Wrong(a[i].got) /\ a' = [a EXCEPT ![i].st = "peer", ![i].sent = IF a[i].role = "in" THEN Append(@, "shake") ELSE @]
  /\ UNCHANGED <<next, seen>>
Next == Tick \/ \E i \in Attempts : Begin(i) \/ Send(i) \/ HangUp(i) \/ Decide(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A i \in Attempts : WF_vars(Decide(i))

OnlyGood == \A i \in Attempts : a[i].st = "peer" => Complete(i) /\ \A k \in DOMAIN a[i].got : a[i].got[k] \in {"good", "foreign"}
NotOurselves == \A i \in Attempts : a[i].role = "in" /\ a[i].st = "peer" => a[i].got[3] \notin seen
Closed == \A i \in Attempts : a[i].role = "out" => (a[i].open = (a[i].st # "failed"))
OnlyHandshake == \A i \in Attempts : a[i].sent = CASE a[i].st = "new" -> <<>> [] a[i].role = "out" -> <<"hand">>
                                                   [] a[i].st = "peer" -> <<"shake">> [] OTHER -> <<>>
Bounded == \A i \in Attempts : Wait(i) ~> (a[i].st \in {"peer", "failed"})
=============================================================================
