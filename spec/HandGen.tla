------------------------------- MODULE HandGen ------------------------------
(* Ways to answer a hand, or to say one: right ones, and every field wrong   *)
(* in turn, in pieces, cut anywhere, slow, or not at all. Written to OUT.    *)
EXTENDS Wire, TLC, Json, IOUtils, Randomization
Genesis == JsonDeserialize(IOEnv.GENESIS)
N == atoi(IOEnv.COUNT)

B(n, x) == [i \in 1..n |-> (7 * x + 3 * i) % 256]
Pick(S) == RandomElement(S)
Put(b, p, x) == [i \in 1..Len(b) |-> IF i >= p /\ i < p + Len(x) THEN x[i - p + 1] ELSE b[i]]
Agent(n) == [i \in 1..n |-> 97 + (i % 26)]
Good(role, i, n) ==
  IF role = "out" THEN Frame([kind |-> "shake", version |-> ProtocolVersion, caps |-> <<i % 65536, (7 * i) % 65536>>, td |-> <<i, 1, 2, 3>>, agent |-> Agent(n), genesis |-> Genesis])
  ELSE Frame([kind |-> "hand", version |-> ProtocolVersion, caps |-> <<i % 65536, 1>>, nonce |-> <<i, 77, 78, 79>>, td |-> <<i, 1, 2, 3>>, sender |-> [ip |-> B(4, i), port |-> 5],
              receiver |-> [ip |-> IF i % 2 = 0 THEN B(4, 1) ELSE B(16, 1), port |-> i % 65536], agent |-> Agent(n), genesis |-> Genesis])
Roles == {"out", "in"}
Type(role) == IF role = "out" THEN 2 ELSE 1
Body(f) == SubSeq(f, 12, Len(f))
\* the body b under a head with that length
Under(role, w, b) == FrameHead(Type(role), w) \o b
Sized(role, b) == Under(role, WOf(Len(b)), b)

One(b) == <<[wait |-> 0, bytes |-> b]>>
Case(role, b, end) == [role |-> role, chunks |-> One(b), end |-> end, early |-> FALSE, own |-> FALSE, follow |-> FALSE]
Ping == Frame([kind |-> "ping", td |-> WOf(5), height |-> WOf(6)])

Versions == {<<0, 0>>, <<2, 0>>, <<257, 0>>, <<1, 1>>, <<1, 32768>>, <<0, 256>>, <<65535, 65535>>}
Rights == {Case(r, Good(r, i, n), "silent") : r \in Roles, i \in {0, 1, 2, 40000}, n \in {0, 1, 14, 300}}
Follows == {[Case("out", Good("out", i, 5) \o Ping, "silent") EXCEPT !.follow = TRUE] : i \in 1..4}
Earlies == {[c EXCEPT !.early = TRUE] : c \in {Case("out", Good("out", i, 5), "silent") : i \in 1..3}}
WrongVersions == {Case(r, Put(Good(r, 1, 9), 12, BE4(v)), e) : r \in Roles, v \in Versions, e \in {"silent", "closewrite"}}
WrongTypes == {Case(r, Put(Good(r, 1, 9), 3, <<t>>), "silent") : r \in Roles, t \in 0..20 \cup {129, 130, 255}} \ {Case(r, Good(r, 1, 9), "silent") : r \in Roles}
WrongMagic == {Case(r, Put(Good(r, 1, 9), 1, x), "silent") : r \in Roles, x \in {<<84, 53>>, <<85, 52>>, <<52, 84>>, <<0, 0>>, <<212, 52>>, <<84, 180>>}}
WrongGenesis == {LET g == Good(r, 1, 9) p == Len(g) - 31 + k IN Case(r, Put(g, p, <<(g[p] + d) % 256>>), "silent") : r \in Roles, k \in {0, 1, 5, 15, 16, 30, 31}, d \in {1, 128}}
                \cup {LET g == Good(r, 1, 9) IN Case(r, Put(g, Len(g) - 31, [i \in 1..32 |-> x]), "silent") : r \in Roles, x \in {0, 255}}
LengthCases == UNION {LET b == Body(Good(r, 1, 9))
                          n == Len(b)
                      IN  {Case(r, Under(r, w, b), "closewrite") : w \in {WOf(n - 1), WOf(n - 32), WOf(0), WOf(n + 1), WOf(MaxMsgLen), WOf(MaxMsgLen + 1), <<n, 0, 1, 0>>, <<n, 0, 0, 32768>>}} : r \in Roles}
AgentLens == {BE8(w) : w \in {WOf(0), WOf(8), WOf(10), WOf(41), WOf(42), WOf(MaxMsgLen), WOf(MaxMsgLen + 1), <<9, 0, 1, 0>>, <<9, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>}}
AgentAt(r) == 11 + IF r = "out" THEN 17 ELSE 39
WrongAgents == {Case(r, Put(Good(r, 2, 9), AgentAt(r), l), "closewrite") : r \in Roles, l \in AgentLens}
AddrFlags == {Case("in", Put(Good("in", i, 9), 36, <<f>>), "closewrite") : i \in {1, 2}, f \in {0, 1, 2, 128, 255}}
Cuts == {LET g == Good(r, 1, 9) IN Case(r, SubSeq(g, 1, k), e) : r \in Roles, k \in {0, 1, 2, 3, 5, 10, 11, 12, 15, 16, 27, 28, 35, 40, 60, 70}, e \in {"silent", "close", "closewrite", "reset"}}
        \cup {LET g == Good(r, 1, 9) IN Case(r, SubSeq(g, 1, Len(g) - k), e) : r \in Roles, k \in {1, 31, 32, 33}, e \in {"silent", "closewrite", "reset"}}
Ends == {Case(r, Good(r, 1, 9), e) : r \in Roles, e \in {"close", "closewrite", "reset"}}
Others == {Case(r, m \o Good(r, 1, 9), "silent") : r \in Roles, m \in {Ping, Frame([kind |-> "error", code |-> <<1, 0>>, msg |-> <<110, 111>>]), Frame([kind |-> "getaddrs", caps |-> <<0, 0>>]), <<0>>, <<84>>, <<84, 52>>}}
          \cup {Case(r, Good(IF r = "out" THEN "in" ELSE "out", 1, 9) \o Good(r, 1, 9), "silent") : r \in Roles}
          \cup {Case(r, Good(r, 1, 9) \o Good(r, 2, 9), "silent") : r \in Roles} \cup {Case(r, Good(r, 1, 9) \o B(50, 1), "silent") : r \in Roles}
Own(i) == [Case("in", Good("in", i, 9), "silent") EXCEPT !.own = TRUE]
Owns == {Own(i) : i \in 1..25}

\* pieces and paces
RECURSIVE Split(_, _)
Split(b, sizes) == IF b = <<>> THEN <<>> ELSE IF sizes = <<>> THEN One(b)
                   ELSE LET k == IF Head(sizes)[1] > Len(b) THEN Len(b) ELSE Head(sizes)[1]
                        IN  <<[wait |-> Head(sizes)[2], bytes |-> SubSeq(b, 1, k)]>> \o Split(SubSeq(b, k + 1, Len(b)), Tail(sizes))
Pieces(x) == [i \in 1..6 |-> <<Pick(1..25), Pick({0, 1, 5, 60})>>]
Paced == {[Case(r, <<>>, "silent") EXCEPT !.chunks = CHOOSE c \in {Split(Good(r, i, 9), Pieces(i))} : TRUE] : r \in Roles, i \in 1..(N \div 4)}
Single == {[Case(r, <<>>, "silent") EXCEPT !.chunks = [i \in 1..Len(Good(r, 1, 3)) |-> [wait |-> IF i % 8 = 0 THEN 1 ELSE 0, bytes |-> <<Good(r, 1, 3)[i]>>]]] : r \in Roles}
\* a byte every now and then: never done in time, but never silent either
Drip == {[Case(r, <<>>, "silent") EXCEPT !.chunks = [i \in 1..40 |-> [wait |-> w, bytes |-> <<Good(r, 1, 9)[i]>>]]] : r \in Roles, w \in {400, 700}}
Late == {[Case(r, <<>>, "silent") EXCEPT !.chunks = <<[wait |-> w, bytes |-> Good(r, 1, 9)]>>] : r \in Roles, w \in {1500, 13000}}
\* bytes changed at random
Flip(b, x) == CHOOSE y \in {[b EXCEPT ![p] = v] : p \in {Pick(1..Len(b))}, v \in {Pick(0..255)}} : TRUE
Flips == {Case(r, Flip(IF i % 3 = 0 THEN Flip(Good(r, 1, 9), i) ELSE Good(r, 1, 9), i), "closewrite") : r \in Roles, i \in 1..(2 * N)}
Selves == [i \in 1..6 |-> [Case("self", <<>>, "silent") EXCEPT !.early = (i % 2 = 0)]]

Wrongs == WrongVersions \cup WrongTypes \cup WrongMagic \cup WrongGenesis \cup LengthCases \cup WrongAgents \cup AddrFlags \cup Cuts \cup Ends \cup Others
\* the ones that take long first, but for some that show our nonces
First == <<Case("out", Good("out", 1, 9), "silent"), Case("out", Good("out", 2, 9), "silent"), Case("out", Good("out", 3, 9), "closewrite")>>
ASSUME JsonSerialize(IOEnv.OUT, First \o SetToSeq(Drip \cup Late) \o SetToSeq(Cuts) \o SetToSeq(Owns) \o Selves
                                \o SetToSeq(Rights \cup Follows \cup Earlies \cup (Wrongs \ Cuts) \cup Paced \cup Single \cup Flips)
                                \o [i \in 1..125 |-> IF i % 5 = 0 THEN Own(i \div 5) ELSE Case("out", Good("out", i, 9), "closewrite")])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
