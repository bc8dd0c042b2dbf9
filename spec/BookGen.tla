------------------------------- MODULE BookGen ------------------------------
(* Uses of the address book for the harness. Written to the file OUT.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
N == atoi(IOEnv.COUNT)
Pick(S) == RandomElement(S)
A(text, ok, shown) == [text |-> text, ok |-> ok, shown |-> shown]
Yes(t) == A(t, "yes", t)
No(t) == A(t, "no", "-")
Maybe(t) == A(t, "any", t)
Right == {Yes("1.2.3.4:5"), Yes("1.2.3.4:6"), Yes("9.8.7.6:65535"), Yes("127.0.0.1:3414"), Yes("[2001:db8::1]:13414"), Yes("[::1]:1"), Yes("[fe80::1]:77"),
          Yes("10.0.0.1:1"), Yes("192.168.0.1:80"), Yes("223.255.255.255:9"), Yes("240.0.0.1:9"), A("localhost:3415", "yes", "127.0.0.1:3415"), A("[::ffff:5.6.7.8]:9", "yes", "5.6.7.8:9")}
Numbers == {x \in Right : x.text # "localhost:3415"}
Wrong == {No(t) : t \in {"", "x", "1.2.3.4", "1.2.3.4:", "1.2.3.4:0", "1.2.3.4:65536", "1.2.3.4:-1", "1.2.3.4:5:6", "::1:5", "[::1]", "[::1]:0", "[2001:db8::1]:65536", ":5", ":0",
                         "224.0.0.1:5", "239.255.255.255:1", "225.1.2.3:13414", "[ff02::1]:5", "[ff00::]:1", "[ffff::1]:2", "[::ffff:224.0.0.1]:5", "256.1.1.1:5", "1.2.3.4:99999999999999999999"}}
Open == {Maybe("0.0.0.0:5"), Maybe("[::]:5"), Maybe("255.255.255.255:5")}
CapSets == {{}, {0}, {1}, {2}, {0, 1, 2}, {1, 2}, {0, 2}, {3}, {31}, {0, 1, 2, 31}}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Some(S, n) == CHOOSE r \in {TLCEval([i \in 1..n |-> Pick(S)])} : TRUE
Distinct(l) == Cardinality({l[i] : i \in DOMAIN l}) = Len(l)
Stats == {"new", "connected", "disconnected", "failed"}

Op(k) == [op |-> k, a |-> 0, g |-> 0, st |-> "new", caps |-> {}]
On(k, a) == [Op(k) EXCEPT !.a = a]
Mark(a, st, c) == [Op("set") EXCEPT !.a = a, !.st = st, !.caps = c]
Peers(c) == [Op("peers") EXCEPT !.caps = c]
Of(k, g) == [Op(k) EXCEPT !.g = g]
MarkAll(g, st, c) == [Op("setgroup") EXCEPT !.g = g, !.st = st, !.caps = c]

OneOp(n) == LET k == Pick(1..14) a == Pick(1..n)
            IN  CASE k <= 4 -> On("add", a) [] k <= 6 -> On("ban", a) [] k <= 10 -> Mark(a, Pick(Stats), Pick(CapSets)) [] OTHER -> Peers(Pick(CapSets))
Scn(as, gs, ops) == [addrs |-> [i \in DOMAIN as |-> as[i].text], shown |-> [i \in DOMAIN as |-> as[i].shown], ok |-> [i \in DOMAIN as |-> as[i].ok], groups |-> gs, ops |-> ops]
Singles(i) == LET as == Listed({Pick(Right), Pick(Right), Pick(Right), Pick(Right), Pick(Wrong), Pick(Wrong), Pick(Open)})
              IN  CHOOSE s \in {Scn(x, <<>>, TLCEval([j \in 1..60 |-> OneOp(Len(x))])) : x \in {as}} : TRUE
EveryOne == LET as == Listed(Right \cup Wrong \cup Open)
            IN  Scn(as, <<>>, [i \in DOMAIN as |-> On("add", i)] \o <<Peers({})>> \o [i \in DOMAIN as |-> On("ban", i)] \o <<Peers({})>> \o [i \in DOMAIN as |-> On("add", i)] \o <<Peers({})>>)

\* the limit of the book
Two == Listed({Yes("1.2.3.4:5"), Yes("[2001:db8::1]:13414")})
Full(g1, g2) == Scn(Two, <<g1, g2, 3>>, <<Of("fill", 1), On("add", 1), Of("fill", 2), On("add", 2), Of("fill", 3), Peers({}), On("add", 1), Of("fill", 1),
                                         On("ban", 1), On("add", 1), Of("fill", 3), On("add", 2), Of("bangroup", 2), Of("fill", 2), Of("fill", 3), On("add", 2), Peers({})>>)
Fulls == {Full(a, b) : a \in {9996, 9998}, b \in {1, 2, 3, 200}}
\* lists at and around their greatest length
Lengths == {<<0, 0>>, <<1, 0>>, <<254, 0>>, <<255, 0>>, <<255, 1>>, <<256, 0>>, <<250, 7>>, <<1000, 500>>, <<128, 127>>}
ListCases == {Scn(Two, <<l[1], l[2], 700>>, <<Of("fill", 1), Of("fill", 2), Of("fill", 3), On("add", 1), MarkAll(3, st, {0, 1, 2}), MarkAll(1, "connected", c), MarkAll(2, "disconnected", {0, 1, 2}), Peers({}), Peers({0}), Peers({1, 2}),
                                        Peers({0, 1, 2}), Peers({3}), Mark(1, "connected", {0, 1, 2}), Peers({0, 1, 2}), Peers({0}), Of("bangroup", 1), Peers({}), Peers({0})>>)
          : l \in Lengths, st \in {"failed", "new"}, c \in {{0}, {0, 1, 2}}}
\* few that qualify among thousands that do not, for one reason or another
Few == {Scn(Two, <<n, 9500>>, <<On("add", 1), Of("fill", 1), Of("fill", 2), MarkAll(1, "connected", {0, 1, 2}), MarkAll(2, r[1], r[2]), Peers({0, 1, 2}), Mark(1, "disconnected", {0, 1, 2}),
                                Peers({0, 1, 2}), Peers({1}), Peers({0}), Peers({}), MarkAll(1, "failed", {0, 1, 2}), Peers({0, 1, 2}), Peers({2})>>)
          : n \in {1, 60, 250}, r \in {<<"failed", {0, 1, 2}>>, <<"connected", {0}>>, <<"disconnected", {0, 2}>>, <<"new", {}>>}}
Races == {Scn(Two, gs, <<Of("racefill", 0), Peers({}), On("add", 1)>> \o (IF gs[1] < 3001 THEN <<Of("raceban", 1), Peers({}), Of("fill", 1)>> ELSE <<>>)) : gs \in {<<3500, 4000, 4000, 4000>>, <<3000, 3500, 3499>>, <<5000, 10000>>, <<300, 300>>}}

\* over days, under a fake clock: no names that have to be looked up
Hours == {1, 2, 3, 11, 25, 49, 169, 721, 9000}
Late(n) == LET k == Pick(1..16)
           IN  CASE k <= 4 -> On("add", Pick(1..n)) [] k <= 6 -> On("ban", Pick(1..n)) [] k <= 9 -> Mark(Pick(1..n), Pick(Stats), Pick(CapSets)) [] k <= 12 -> Of("wait", Pick(Hours)) [] OTHER -> Peers(Pick(CapSets))
Ages(i) == CHOOSE s \in {Scn(x, <<>>, TLCEval([j \in 1..80 |-> Late(Len(x))])) : x \in {Listed({Pick(Numbers), Pick(Numbers), Pick(Numbers), Pick(Numbers), Pick(Numbers)})}} : TRUE
BanAge(h) == Scn(Two, <<30>>, <<On("add", 1), Of("fill", 1), On("ban", 1), Of("bangroup", 1), Of("wait", h), On("add", 1), Of("fill", 1), Peers({}), On("add", 2), Of("wait", h), Peers({}), On("add", 2), On("ban", 2), On("add", 2)>>)
All == IF "AGES" \in DOMAIN IOEnv THEN [i \in 1..N |-> Ages(i)] \o Listed({BanAge(h) : h \in Hours}) ELSE
       <<EveryOne>> \o [i \in 1..N |-> Singles(i)] \o Listed(Fulls) \o Listed(ListCases) \o Listed(Few) \o Listed(Races) \o Listed(Races)
ASSUME JsonSerialize(IOEnv.OUT, All)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
