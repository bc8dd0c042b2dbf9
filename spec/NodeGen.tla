------------------------------ MODULE NodeGen -------------------------------
(* Random behaviours of the node's environment, generated along the          *)
(* specification: who sends what, and how the chain grows.                   *)
EXTENDS Node, TLC, Json, IOUtils
Kind == IOEnv.KIND
Count == atoi(IOEnv.COUNT)
Length == atoi(IOEnv.LENGTH)

Small == {WOf(x) : x \in 0..3}
Big == {<<65535, 65535, 65535, 65535>>, <<65534, 65535, 65535, 65535>>, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 32767>>,
        <<0, 0, 1, 0>>, <<65535, 65535, 0, 0>>, <<0, 32768, 0, 0>>, <<1, 2, 3, 4>>}
Vals == IF Kind \in {"spread", "ban"} THEN Small ELSE Small \cup Big
Word(x) == RandomElement(Vals)      \* an argument, lest TLC take it for a constant
Flip(n) == RandomElement(1..n) = 1
CapSets == {{}, {0}, {1}, {2}, {0, 1, 2}, {0, 2}, {3}, {31}}
Known == {1, 2, 3}
Ids == {1, 2, 3, 4, 77}

RECURSIVE Frame(_, _, _)
Frame(k, i, tip) ==
  CASE k \in {"ping", "pong"} -> [k |-> k, h |-> IF Flip(3) THEN tip.h ELSE Word(0), td |-> IF Flip(3) THEN tip.td ELSE Word(1)]
    [] k = "getaddrs" -> [k |-> k, caps |-> RandomElement(CapSets)]
    \* more addresses would have the node busy with dialling them
    [] k = "addrs" -> [k |-> k, list |-> <<>>]
    [] k = "getheaders" -> [k |-> k, loc |-> [j \in 1..RandomElement({0, 1, 2, 3, 13, 14}) |-> RandomElement(1..9)]]
    [] k = "getblock" -> [k |-> k, id |-> RandomElement(Ids)]
    [] k = "block" -> [k |-> k, id |-> 1000 + i, ok |-> ~Flip(5), h |-> IF Flip(2) THEN tip.h ELSE Word(0), td |-> IF Flip(3) THEN tip.td ELSE Word(1)]
    [] k = "header" -> [k |-> k, id |-> 1000 + i, ok |-> Flip(2)]
    [] k = "headers" -> [k |-> k, id |-> 1000 + i, ok |-> ~Flip(3), n |-> RandomElement(1..3)]
    [] k = "tx" -> [k |-> k, id |-> 1000 + i, ok |-> ~Flip(3)]
    [] k \in {"getcompact", "compact", "close"} -> [k |-> k]
    [] k = "magic" -> [k |-> k, at |-> RandomElement(0..1), bit |-> RandomElement(0..7)]
    [] k = "long" -> [k |-> k, type |-> RandomElement({3, 5, 11, 13}), len |-> RandomElement({<<11521, 305, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 32768>>, <<16, 0, 1, 0>>})]
    [] k = "type" -> [k |-> k, type |-> RandomElement({0, 1, 2, 14, 16, 17, 128, 255}), n |-> RandomElement({0, 1, 40})]
    [] k = "malformed" -> LET of(x) == [k |-> k, of |-> Frame(x, i, tip), part |-> RandomElement({0, 50, 98})]
                          IN  CHOOSE f \in {of(x) : x \in {RandomElement({"ping", "pong", "getaddrs", "header", "getblock", "block", "compact", "tx", "headers"})}} : TRUE

\* what is sent in behaviours of a kind; some more often
Kinds ==
  CASE Kind = "answers" -> <<"ping", "ping", "getaddrs", "getheaders", "getblock", "getblock", "pong", "header", "compact", "getcompact", "addrs", "tx">>
    [] Kind = "spread" -> <<"ping", "ping", "ping", "pong", "block", "block", "block", "block", "getblock", "header", "again", "again">>
    [] Kind = "known" -> <<"ping", "ping", "pong", "pong", "block", "block", "block", "getheaders", "header", "getblock", "again", "compact">>
    [] Kind = "ban" -> <<"block", "headers", "tx", "header", "header", "tx", "ping", "again", "getblock", "block", "headers", "getheaders", "compact">>
    [] Kind = "hostile" -> <<"ping", "getheaders", "getblock", "block", "getaddrs", "pong", "magic", "long", "type", "malformed", "malformed", "close">>

\* one more step of behaviour b = [n, steps, sent]
Send(b, i, p, k) ==
  LET g(x) == IF x = "again" THEN IF b.sent = <<>> THEN Frame("ping", i, b.n.chain) ELSE RandomElement(ToSet(b.sent)) ELSE Frame(x, i, b.n.chain)
      add(f) == [b EXCEPT !.n = After(@, p, f), !.steps = Append(@, [op |-> "frame", from |-> p, f |-> f]), !.sent = IF f.k = "block" THEN Append(@, f) ELSE @]
  IN  CHOOSE r \in {add(f) : f \in {g(k)}} : TRUE
NewTip(b) == CHOOSE r \in {[b EXCEPT !.n.chain = t, !.steps = Append(@, [op |-> "tip", to |-> t])] : t \in {[h |-> RandomElement(Vals), td |-> RandomElement(Vals)]}} : TRUE
\* the chain gets other content
NewStore(b) == CHOOSE r \in {[b EXCEPT !.n.blocks = s, !.steps = Append(@, [op |-> "store", blocks |-> s, age |-> Len(b.steps) + 1])] : s \in {RandomElement(SUBSET {1, 2, 3, 4})}} : TRUE
\* many messages at once from everybody; only requests, notices and no offences
BurstKinds == IF Kind = "answers" THEN <<"ping", "getblock", "getheaders", "ping", "pong", "header">> ELSE <<"ping", "pong", "ping", "block">>
BurstOf(i, tip) == [j \in 1..RandomElement(10..40) |-> CHOOSE f \in {Frame(x, 100 * i + j, tip) : x \in {RandomElement(ToSet(BurstKinds))}} : TRUE]
Burst(b, i) ==
  LET lists(t) == [p \in DOMAIN b.n.peers |-> IF ~b.n.peers[p].open THEN <<>> ELSE
                     LET l == BurstOf(i, t) IN [j \in DOMAIN l |-> IF l[j].k = "block" THEN [l[j] EXCEPT !.ok = TRUE] ELSE l[j]]]
  IN  CHOOSE r \in {[b EXCEPT !.n.chain = ts[Len(ts)], !.steps = Append(@, [op |-> "burst", tips |-> ts, lists |-> TLCEval(lists(b.n.chain))])]
                     : ts \in {[j \in 1..RandomElement(1..6) |-> [h |-> Word(0), td |-> Word(0)]]}} : TRUE
\* good messages, one that breaks the connection, and more behind it, all in one piece
GoodKinds == {"ping", "getheaders", "getblock", "block", "pong", "header", "compact"}
Stream(b, i, p) ==
  LET good(n, o) == [j \in 1..n |-> CHOOSE f \in {LET g == Frame(x, 100 * i + j + o, b.n.chain) IN IF g.k = "block" THEN [g EXCEPT !.ok = TRUE] ELSE g : x \in {RandomElement(GoodKinds)}} : TRUE]
      bad == Frame(RandomElement({"magic", "long", "type", "malformed"}), i, b.n.chain)
  IN  [b EXCEPT !.n = Drop(@, p), !.steps = Append(@, [op |-> "stream", from |-> p, fs |-> TLCEval(good(RandomElement(0..4), 0) \o <<bad>> \o good(RandomElement(0..3), 10))])]
\* a block with news of the sender right before and behind it
Told3(b, i, p) ==
  LET news(n) == [j \in 1..n |-> CHOOSE f \in {Frame(x, i, b.n.chain) : x \in {RandomElement({"ping", "pong"})}} : TRUE]
      block == [Frame("block", i, b.n.chain) EXCEPT !.ok = TRUE]
      add(fs) == [b EXCEPT !.n = FoldLeft(LAMBDA n, f : After(n, p, f), @, fs), !.steps = Append(@, [op |-> "stream", from |-> p, fs |-> fs])]
  IN  CHOOSE r \in {add(fs) : fs \in {news(RandomElement(0..2)) \o <<block>> \o news(RandomElement(0..2))}} : TRUE
\* damaged bytes
Fuzz(b, i, p) ==
  [b EXCEPT !.n.peers[p].open = FALSE,
            !.steps = Append(@, [op |-> "fuzz", from |-> p, of |-> Frame(RandomElement({"ping", "pong", "getaddrs", "getheaders", "getblock", "header", "headers", "block", "compact", "tx"}), i, b.n.chain)])]
\* p asks for more than it takes: big answers in between many like f. Then the chain goes on, and another peer is served.
Stall(b, i, p) ==
  LET asks == IF Kind = "hostile" THEN {"ping", "getaddrs"} ELSE {"ping", "getaddrs", "getblock", "getheaders"}
      stalled(f) == [b EXCEPT !.n.peers[p].open = FALSE, !.steps = Append(@, [op |-> "stall", from |-> p, f |-> f])]
      next(x, q) == Send(NewTip(x), i, q, "ping")
  IN  CHOOSE r \in {next(stalled(f), q) : f \in {Frame(x, i, b.n.chain) : x \in {RandomElement(asks)}}, q \in {RandomElement(Online(b.n) \ {p})}} : TRUE

\* somebody leaves, or is dropped, and comes back to the same address
Return(b, i, p, t) ==
  LET back(f, ms) == [b EXCEPT !.n = Back(After(@, p, f), p, t[p]), !.steps = Append(@, [op |-> "return", from |-> p, f |-> f, ms |-> ms])]
      ends == IF Kind = "hostile" THEN {"magic", "long", "type", "malformed", "close"} ELSE {"close"}
  IN  CHOOSE r \in {back(f, ms) : f \in {Frame(x, i, b.n.chain) : x \in {RandomElement(ends)}}, ms \in {RandomElement({0, 0, 1, 2500})}} : TRUE

Step(b, i, t) ==
  IF Cardinality(Online(b.n)) < (IF Kind \in {"ban", "hostile"} THEN 2 ELSE 1)  THEN b
  ELSE CHOOSE r \in {CASE x = 1 /\ Kind \in {"answers", "spread", "known"} -> NewTip(b)
                       [] x = 6 /\ Kind \in {"answers", "spread", "hostile"} -> NewStore(b)
                       [] x = 2 /\ Kind \in {"answers", "known"} -> Burst(b, i)
                       [] x = 7 /\ Kind # "ban" /\ Flip(2) -> CHOOSE y \in {Return(b, i, p, t) : p \in {RandomElement(Online(b.n))}} : TRUE
                       [] x = 3 /\ Kind \in {"answers", "spread", "hostile"} /\ Cardinality(Online(b.n)) > 2 /\ Flip(2) -> CHOOSE y \in {Stall(b, i, p) : p \in {RandomElement(Online(b.n))}} : TRUE
                       [] x = 4 /\ Kind = "hostile" -> CHOOSE y \in {Stream(b, i, p) : p \in {RandomElement(Online(b.n))}} : TRUE
                       [] x = 4 /\ Kind \in {"spread", "known"} -> CHOOSE y \in {Told3(b, i, p) : p \in {RandomElement(Online(b.n))}} : TRUE
                       [] x = 5 /\ Kind = "hostile" -> CHOOSE y \in {Fuzz(b, i, p) : p \in {RandomElement(Online(b.n))}} : TRUE
                       [] OTHER -> CHOOSE y \in {Send(b, i, p, Kinds[k]) : p \in {RandomElement(Online(b.n))}, k \in {RandomElement(DOMAIN Kinds)}} : TRUE
                     : x \in {RandomElement(1..10)}} : TRUE

Hosts == IF Kind = "ban" THEN <<"", "127.0.0.1", "localhost", "::1", "mapped", "">> ELSE [j \in 1..6 |-> ""]
Start(k, tip, caps, txs) ==
  [n |-> [peers |-> [p \in 1..k |-> [st |-> "connected", open |-> TRUE, h |-> W0, td |-> WOf(1), caps |-> caps[p]]], chain |-> tip, blocks |-> Known, txs |-> txs],
   steps |-> <<>>, sent |-> <<>>]
\* with the real chain: b numbers the blocks there are, of which the harness knows and module Chain judges
RFrame(k, i) ==
  CASE k = "block" -> [k |-> k, b |-> RandomElement(0..11), ok |-> TRUE]
    [] k = "header" -> [k |-> k, b |-> RandomElement(0..11), ok |-> TRUE]
    [] k = "headers" -> [k |-> k, bs |-> [j \in 1..RandomElement(0..4) |-> RandomElement(0..11)], n |-> 0, ok |-> TRUE]
    [] k = "getblock" -> [k |-> k, b |-> RandomElement(0..60)]
    [] k = "getheaders" -> [k |-> k, bs |-> [j \in 1..RandomElement({0, 1, 2, 3, 13, 14}) |-> RandomElement({0, 0} \cup 0..60)], loc |-> <<>>]
    [] k = "goodheaders" -> [k |-> "headers", bs |-> [j \in 1..RandomElement(1..4) |-> RandomElement(0..2)], n |-> 0, ok |-> TRUE]
    [] k = "goodblock" -> [k |-> "block", b |-> RandomElement(0..2), ok |-> TRUE]
    [] OTHER -> Frame(k, i, [h |-> WOf(1), td |-> WOf(2)])
RKinds == <<"block", "goodblock", "goodblock", "goodblock", "headers", "goodheaders", "header", "getblock", "getheaders", "ping", "pong", "getaddrs", "tx">>
RealScenario(j) ==
  LET step(p, f) == [op |-> "frame", from |-> p, f |-> f]
      steps == [i \in 1..Length |-> CHOOSE s \in {step(RandomElement(1..6), f) : f \in {RFrame(x, i) : x \in {RKinds[RandomElement(DOMAIN RKinds)]}}} : TRUE]
      caps == [p \in 1..6 |-> RandomElement(CapSets)]
  IN  [kind |-> "real", real |-> TRUE, txs |-> Flip(2), pause |-> 0, settle |-> 120, blocks |-> <<>>, tip |-> [h |-> W0, td |-> W0],
       steps |-> TLCEval(steps), peers |-> TLCEval([p \in 1..6 |-> [host |-> "", mode |-> "once", caps |-> caps[p], td |-> RandomElement({WOf(0), WOf(1000), WOf(1035), <<0, 0, 1, 0>>, <<65535, 65535, 65535, 65535>>})]])]
Scenario(b) ==
  [kind |-> Kind, txs |-> b.n.txs, pause |-> IF Kind = "answers" THEN 2 ELSE 0, settle |-> 60, blocks |-> Known,
   tip |-> b.n.chain, steps |-> FoldLeft(LAMBDA s, i : TLCEval(Step(s, i, [p \in DOMAIN b.n.peers |-> b.n.peers[p].td])), b, [i \in 1..Length |-> i]).steps,
   peers |-> [p \in DOMAIN b.n.peers |-> [host |-> Hosts[p], mode |-> "once", caps |-> b.n.peers[p].caps, td |-> b.n.peers[p].td]]]
One(j) ==
  IF Kind = "real" THEN CHOOSE s \in {RealScenario(j)} : TRUE ELSE
  CHOOSE s \in {Scenario(Start(k, t, c, txs)) :
                k \in {IF Kind \in {"ban", "hostile"} THEN 6 ELSE RandomElement(2..4)}, t \in {[h |-> RandomElement(Vals), td |-> RandomElement(Vals)]},
                c \in {[p \in 1..6 |-> RandomElement(CapSets)]}, txs \in {Flip(2)}} : TRUE

ASSUME JsonSerialize(IOEnv.OUT, [j \in 1..Count |-> One(j)])
=============================================================================
