------------------------------- MODULE ConnGen ------------------------------
(* Lives of a connection for the harness: who sends what, how fast the other *)
(* side reads, how it ends and when. Written to the file OUT.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
N == atoi(IOEnv.COUNT)
Pick(S) == RandomElement(S)
Sizes(mix, len) == [i \in 1..len |-> CASE mix = "small" -> 0 [] mix = "big" -> 2 [] OTHER -> Pick({0, 0, 1, 1, 2})]
Mixes == {"small", "mixed", "big"}
Senders(x) == LET mix == Pick(Mixes) IN TLCEval([i \in 1..Pick(1..6) |-> Sizes(mix, Pick(IF mix = "big" THEN 3..12 ELSE 5..60))])
\* undisturbed: everything arrives, then somebody ends it
Calm(x) == [role |-> Pick({"in", "out"}), senders |-> Senders(x), flood |-> 0, pace |-> Pick({"fast", "fast", "slow"}), how |-> Pick({"close", "disconnect", "remote", "reset", "garbage", "half"}),
            when |-> -1, closers |-> Pick(1..4), waiters |-> Pick(1..3), storm |-> 0, idle |-> 0]
\* in the middle of it
Abrupt(x) == [Calm(x) EXCEPT !.when = Pick({0, 0, 1, 2, 5, 10, 30, 100}), !.pace = Pick({"fast", "slow", "stall"}), !.closers = Pick(1..8)]
\* nobody reads: senders get stuck
Stuck(x) == [Calm(x) EXCEPT !.senders = TLCEval([i \in 1..Pick(2..6) |-> Sizes("big", 80)]), !.when = Pick({100, 300}), !.pace = "stall", !.how = Pick({"close", "disconnect", "remote", "reset"})]
\* the remote asks and asks
Asking(x) == LET c == IF Pick({1, 2}) = 1 THEN Abrupt(x) ELSE Stuck(x) IN [c EXCEPT !.role = "out", !.flood = Pick({50, 2000, 200000})]
CalmAsking(x) == [Calm(x) EXCEPT !.role = "out", !.flood = Pick({20, 300})]
\* many short lives, ended from several sides at the same instant
Storm(x) == [Abrupt(x) EXCEPT !.storm = 250]
\* a long silence, longer than a handshake may take, is nothing to end for
Idle(x) == [Calm(x) EXCEPT !.idle = Pick({10500, 12000}), !.pace = "fast"]
IdleAsking(x) == [CalmAsking(x) EXCEPT !.idle = 11000]
One(i) == CASE i <= 4 -> [Idle(i) EXCEPT !.role = IF i % 2 = 0 THEN "in" ELSE "out"] [] i = 5 -> IdleAsking(i) []  i % 20 = 7 -> Storm(i) [] i % 5 = 0 -> Calm(i) [] i % 5 = 1 -> Abrupt(i) [] i % 5 = 2 -> Stuck(i) [] i % 5 = 3 -> Asking(i) [] OTHER -> IF i % 2 = 0 THEN CalmAsking(i) ELSE Abrupt(i)
ASSUME JsonSerialize(IOEnv.OUT, TLCEval([i \in 1..N |-> CHOOSE c \in {One(i)} : TRUE]))
\* days of hardly any talk
Quiet(x) == LET n == Pick(2..8)
                gaps == TLCEval([i \in 1..n |-> Pick({1, 9, 11, 31, 61, 121, 301, 3601, 90000})])
                sizes == TLCEval([i \in 1..n |-> Pick({0, 1, 2})])
            IN  [gaps |-> gaps, sizes |-> sizes, how |-> Pick({"close", "disconnect", "remote", "garbage"}), closers |-> Pick(1..4), waiters |-> Pick(1..3)]
ASSUME JsonSerialize(IOEnv.QUIET, TLCEval([i \in 1..(N \div 5) |-> CHOOSE c \in {Quiet(i)} : TRUE]))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
