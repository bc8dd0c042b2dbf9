------------------------------- MODULE PoolGen ------------------------------
(* Scenarios for the real pool of peers: remotes that follow a plan of how   *)
(* they take every attempt, and what happens when. Written to the file OUT.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Count == atoi(IOEnv.COUNT)
Kinds == IOEnv.KIND       \* of which property
Pick(S) == RandomElement(S)
W(how, ms) == [how |-> how, ms |-> ms]
Caps == {{}, {0}, {1, 2}, {0, 1, 2}, {31, 0}}
P(plan, known) == [plan |-> plan, known |-> known, caps |-> Pick(Caps), text |-> "", talk |-> Pick(BOOLEAN)]
NoAddr == {"224.1.2.3:99", "[ff02::1]:7", "239.0.0.1:3414", "127.0.0.1:0", "[::1]:0"}
Junk == [plan |-> <<W("closed", 0)>>, known |-> Pick(BOOLEAN), caps |-> {}, text |-> Pick(NoAddr), talk |-> FALSE]
Stay == <<W("good", 0)>>
Bad(x) == W(Pick({"drop", "version", "genesis", "type", "leave"}), 0)
Flap(x) == W(Pick({"good", "reset"}), Pick({300, 500, 900, 1500}))
Some(x) == LET k == Pick(1..10)
           IN  CASE k <= 3 -> Bad(x) [] k <= 5 -> Flap(x) [] k = 6 -> W("slow", Pick({500, 1500, 3000})) [] OTHER -> W("good", Pick({0, 0, 3000, 8000}))
Plan(x) == CHOOSE p \in {TLCEval([i \in 1..n |-> Some(i)]) \o <<last>> : n \in {Pick(0..3)}, last \in {Pick({W("good", 0), Flap(x), Bad(x)})}} : TRUE
List(n, F(_)) == CHOOSE l \in {TLCEval([i \in 1..n |-> F(i)])} : TRUE
O(k, t) == [op |-> k, t |-> t, a |-> 0, by |-> 0, as |-> <<>>]
On(k, t, a) == [O(k, t) EXCEPT !.a = a]
Tell(t, by, as) == [O("announce", t) EXCEPT !.by = by, !.as = as]
Scn(kind, ps, ops, last) == [kind |-> kind, peers |-> ps, ops |-> ops, last |-> last]
None == <<>>

\* C17: more failures than there are slots, then somebody worth it
Failures(x) == LET n == Pick(17..19)
               IN  Scn("failures", List(n, LAMBDA i : P(<<Bad(i)>>, TRUE)) \o <<P(Stay, FALSE), P(<<Flap(x)>>, FALSE)>>, <<On("add", 20000, n + 1), On("add", 22000, n + 2)>>, 31000)
Refused(x) == Scn("refused", <<P(<<Bad(x)>>, TRUE), P(<<Bad(x)>>, TRUE), P(<<Bad(x), Bad(x)>>, TRUE), P(Stay, FALSE)>>, <<On("add", 20000, 4)>>, 29000)
Closed(x) == Scn("closed", List(3, LAMBDA i : P(<<W("closed", 0)>>, TRUE)) \o <<P(Stay, FALSE), P(Stay, TRUE)>>, <<On("add", 20000, 4)>>, 32000)
Flapping(x) == Scn("flapping", List(Pick(1..4), LAMBDA i : P(<<Flap(i)>>, TRUE)), None, 30000)
Idle(x) == Scn("idle", <<P(Stay, FALSE), P(<<Bad(x), W("good", 0)>>, FALSE), Junk>>, <<On("add", 18500, 1), On("add", 21000, 2), On("add", 19000, 3)>>, 30000)
Content(x) == Scn("content", <<P(Stay, TRUE), P(Stay, FALSE)>>, <<On("add", 20500, 2)>>, 28000)
Full(x) == Scn("full", List(Pick(17..19), LAMBDA i : P(IF i % 3 = 0 THEN <<W("good", 20000), W("good", 0)>> ELSE Stay, TRUE)), [i \in 1..3 |-> On("leave", 19500 + 2000 * i, 3 * i + 1)], 36000)
Mix(x) == LET n == Pick(5..9)
          IN  Scn("mix", List(n, LAMBDA i : P(Plan(i), i <= 3 \/ Pick(BOOLEAN))) \o <<P(Stay, TRUE)>>,
                  List(5, LAMBDA i : IF Pick(1..2) = 1 THEN On("add", 2000 * i, Pick(1..n)) ELSE Tell(2000 * i + 1000, n + 1, <<Pick(1..n), Pick(1..n)>>)), 28000)
Silent(x) == Scn("silent", <<P(<<W(Pick({"silent", "half"}), 0), W("good", 0)>>, TRUE), P(Stay, TRUE), P(<<W("slow", 8000)>>, TRUE), P(Plan(x), TRUE)>>, None, 40000)

\* C16
Bans(x) == LET n == Pick(6..9) v == Pick(1..n) w == Pick(1..n) u == Pick(1..n) t == Pick({500, 2500, 6200, 9300, 12100})
           IN  Scn("bans", List(n, LAMBDA i : P(IF Pick(1..3) = 1 THEN Plan(i) ELSE Stay, TRUE)) \o <<P(Stay, TRUE), P(Stay, FALSE), P(Stay, TRUE)>>,
                   <<On("ban", t, v), On("ban", t + 700, w), On("ban", t + 700, w), On("ban", t + 1500, n + 2), On("add", t + 2100, v), Tell(t + 3000, n + 1, <<v, w, n + 2>>),
                     On("ban", t + 4100, v), Tell(t + 5000, n + 3, <<v, w, w>>), On("ban", t + 6000, u), On("add", t + 7100, w), On("add", t + 7800, u), Tell(t + 9000, n + 1, <<u, v>>)>>, 30000)
BanBusy(x) == LET t == Pick({600, 1700, 2300, 3400, 4600})
              IN  Scn("banbusy", <<P(<<W(Pick({"silent", "half", "slow"}), 4000), W("good", 0)>>, TRUE), P(Stay, TRUE), P(<<W("slow", 2500)>>, TRUE), P(Stay, TRUE)>>,
                      List(2, LAMBDA i : On("ban", t + 900 * i, 2 * i - 1)) \o <<On("add", t + 4500, 1), On("add", t + 16500, 3), Tell(t + 18000, 2, <<1, 3>>)>>, 34000)
BanAll(x) == LET n == Pick(4..8)
             IN  Scn("banall", List(n, LAMBDA i : P(IF i < 3 THEN <<Flap(i)>> ELSE Stay, TRUE)), List(n, LAMBDA i : On("ban", 4000 + 1000 * Pick(0..5), i)) \o List(n, LAMBDA i : On("add", 11500 + 100 * i, i)), 26000)
\* one after another gets connected and banned, then somebody worth it
BanSlots(x) == LET n == Pick(17..18)
               IN  Scn("banslots", List(n, LAMBDA i : P(Stay, FALSE)) \o <<P(Stay, FALSE), P(Stay, FALSE)>>,
                       List(n, LAMBDA i : On("add", 1300 * i, i)) \o List(n, LAMBDA i : On("ban", 1300 * i + 2100, i)) \o <<On("add", 1300 * n + 3500, n + 1), On("add", 1300 * n + 4500, n + 2)>>, 1300 * n + 11000)
BanFlap(x) == Scn("banflap", List(3, LAMBDA i : P(<<W("good", 300)>>, TRUE)) \o <<P(<<Bad(x)>>, TRUE), P(<<W("closed", 0)>>, TRUE)>>,
                  List(5, LAMBDA i : On("ban", 2000 * i + Pick({0, 100, 200, 300, 500, 900}), i)) \o List(5, LAMBDA i : On("add", 15000 + 600 * i, i)), 26000)

\* C22: the end in every state
Stops(x) == LET n == Pick(0..7) t == Pick({0, 100, 900, 1500, 2300, 4100, 6000, 9500, 13000})
            IN  Scn("stops", List(n, LAMBDA i : P(IF Pick(1..2) = 1 THEN Plan(i) ELSE Stay, i > 1)) \o <<P(<<W("closed", 0)>>, TRUE), P(Stay, FALSE)>>,
                    (IF n > 2 THEN <<On("ban", t \div 2, 2)>> ELSE None) \o <<O("stop", t), On("add", t + 3300, n + 2), On("ban", t + 5000, Pick(1..n + 1)), On("add", t + 6000, 1)>>, t + 19000)
StopBusy(x) == LET t == Pick({300, 1300, 2600, 5200})
               IN  Scn("stopbusy", <<P(<<W(Pick({"silent", "half", "slow"}), 5000), W("good", 0)>>, TRUE), P(Stay, TRUE), P(<<Flap(x)>>, TRUE)>>, <<O("stop", t)>>, t + 24000)
StopFull(x) == Scn("stopfull", List(18, LAMBDA i : P(Stay, TRUE)), <<O("stop", 15000 + 1000 * Pick(0..4))>>, 38000)
StopLeave(x) == LET n == Pick(1..3)
                IN  Scn("stopleave", List(n, LAMBDA i : P(<<W("good", 1000 * Pick(1..3))>>, TRUE)) \o <<P(<<Bad(x)>>, TRUE), P(Stay, TRUE)>>,
                        <<O("stop", 1000 * Pick(3..7) + Pick({0, 300, 600, 990}))>> \o List(n, LAMBDA i : On("ban", 3000 + 700 * i, i)), 26000)
StopIdle(x) == Scn("stopidle", <<P(Stay, FALSE)>>, <<O("stop", Pick({200, 2500, 17500})), On("add", 19000, 1)>>, 35000)

Of(kinds, i) ==
  LET one(k) == CASE k = "failures" -> Failures(i) [] k = "refused" -> Refused(i) [] k = "closed" -> Closed(i) [] k = "flapping" -> Flapping(i) [] k = "idle" -> Idle(i)
                  [] k = "content" -> Content(i) [] k = "full" -> Full(i) [] k = "mix" -> Mix(i) [] k = "silent" -> Silent(i) [] k = "bans" -> Bans(i)
                  [] k = "banbusy" -> BanBusy(i) [] k = "banall" -> BanAll(i) [] k = "banflap" -> BanFlap(i) [] k = "banslots" -> BanSlots(i) [] k = "stops" -> Stops(i) [] k = "stopbusy" -> StopBusy(i)
                  [] k = "stopfull" -> StopFull(i) [] k = "stopleave" -> StopLeave(i) [] k = "stopidle" -> StopIdle(i)
  IN  one(kinds[1 + (i % Len(kinds))])
ByProp == [C16 |-> <<"bans", "banbusy", "bans", "banall", "banflap", "bans">>,
           C17 |-> <<"failures", "mix", "refused", "flapping", "closed", "idle", "mix", "content", "full", "silent", "mix", "banslots">>,
           C18 |-> <<"mix", "bans", "mix", "refused">>,
           C22 |-> <<"stops", "stopbusy", "stops", "stopfull", "stopleave", "stopidle">>]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Of(ByProp[Kinds], i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
