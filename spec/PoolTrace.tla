------------------------------ MODULE PoolTrace -----------------------------
(* Judges what was seen of the real pool of peers over time: connections as  *)
(* the remotes saw them, what the book said of every address, lists it gave. *)
(* All times in ms; the tolerances are for what takes time in between.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Record == JsonDeserialize(IOEnv.CASES)
Max == 15
Never == 100000000
Elems(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

As(r) == DOMAIN r.peers
End(l) == IF l.end < 0 THEN Never ELSE l.end
Was(l) == l.up >= 0                       \* the handshake went through
Held(l) == IF Was(l) THEN l.up ELSE End(l) \* until when the attempt took
Links(r) == UNION {{<<a, k>> : k \in DOMAIN r.links[a]} : a \in As(r)}
Link(r, x) == r.links[x[1]][x[2]]
Dials(r) == {Link(r, x).dial : x \in Links(r)}
Ops(r, k) == {i \in DOMAIN r.ops : r.ops[i].op = k /\ r.ops[i].from >= 0}
StopAt(r) == LET S == Ops(r, "stop") IN IF S = {} THEN Never ELSE MinOf({r.ops[i].from : i \in S})
Invalid(r, a) == r.peers[a].text # ""
Shut(r, a) == r.peers[a].plan[1].how = "closed"
SpanAt(r, a, t) == LET S == {k \in DOMAIN r.spans[a] : r.spans[a][k].from <= t} IN IF S = {} THEN "none" ELSE r.spans[a][MaxOf(S)].st
KnownAt(r, a, t) == SpanAt(r, a, t - 200) \notin {"none", "unknown"} \/ (r.peers[a].known /\ ~Invalid(r, a) /\ t < 400)

\* bans that take effect: of an address in the book
Bans(r, a) == {i \in Ops(r, "ban") : r.ops[i].a = a /\ KnownAt(r, a, r.ops[i].from)}
BanFrom(r, a) == IF Bans(r, a) = {} THEN Never ELSE MinOf({r.ops[i].from : i \in Bans(r, a)})
BanTo(r, a) == IF Bans(r, a) = {} THEN Never ELSE LET T == {r.ops[i].to : i \in Bans(r, a)} IN IF -1 \in T THEN Never ELSE MaxOf(T)
\* additions: surely done at, possibly done from
Adds(r, a) == {i \in Ops(r, "add") : r.ops[i].a = a} \cup {i \in Ops(r, "announce") : a \in Elems(r.ops[i].as) /\ r.ops[i].done}
Takes(o) == IF o.op = "add" THEN o.to ELSE o.to + 1000
Sure(r, a) == IF Invalid(r, a) THEN Never ELSE IF r.peers[a].known THEN 0
              ELSE LET T == {Takes(r.ops[i]) : i \in {j \in Adds(r, a) : r.ops[j].to >= 0}} IN IF T = {} THEN Never ELSE MinOf(T)
Possible(r, a) == IF Invalid(r, a) THEN Never ELSE IF r.peers[a].known THEN 0
                  ELSE LET T == {r.ops[i].from : i \in Adds(r, a)} IN IF T = {} THEN Never ELSE MinOf(T)

---------------------------------------------------------------------------
\* C17
NotTwice(r) == \A a \in As(r) : \A k, j \in DOMAIN r.links[a] : k < j => r.links[a][j].dial + 500 >= End(r.links[a][k])
AtMost(r) == \A t \in Dials(r) : Cardinality({x \in Links(r) : Link(r, x).dial <= t /\ End(Link(r, x)) > t + 500}) <= Max
Own(r) == \A a \in As(r) : (Invalid(r, a) \/ Possible(r, a) = Never) => r.links[a] = <<>>

\* waiting from x to y: known, not banned, without a connection
Waits(r, a, x, y) == /\ ~Shut(r, a) /\ Sure(r, a) <= x /\ BanFrom(r, a) > y
                     /\ \A k \in DOMAIN r.links[a] : End(r.links[a][k]) <= x \/ r.links[a][k].dial > y
Past(r, a, t) == {k \in DOMAIN r.links[a] : r.links[a][k].dial <= t}
Fresh(r, a, t) == LET S == Past(r, a, t) IN S = {} \/ Was(r.links[a][MaxOf(S)])
Open(r, x, y) == Cardinality({l \in Links(r) : Link(r, l).dial <= y /\ End(Link(r, l)) > x})
\* whenever a slot is free and somebody waits there is an attempt before long
Moments(r) == {0} \cup {End(Link(r, x)) : x \in Links(r)} \cup {Held(Link(r, x)) : x \in Links(r)} \cup {r.ops[i].to : i \in DOMAIN r.ops}
Busy(r, t) == \E x \in Links(r) : Link(r, x).dial <= t /\ Held(Link(r, x)) > t
GoesOn(r) ==
  LET shut == Cardinality({a \in As(r) : Shut(r, a)})
      patience == 4500 + 1300 * shut
      upto == MinOf({r.last, StopAt(r)})
  IN  \A x \in {m \in Moments(r) : m >= 0 /\ m + patience < upto} :
        LET y == x + patience
        IN  ~(/\ ~Busy(r, x) /\ \A d \in Dials(r) : d < x \/ d > y
              /\ Open(r, x, y) < Max
              /\ \E a \in As(r) : Waits(r, a, x, y) /\ (Fresh(r, a, x) \/ shut = 0))
\* and nobody who can be connected is passed over for ever
Fair(r) ==
  LET upto == MinOf({r.last, StopAt(r)})
  IN  \A a \in As(r) : ~Shut(r, a) =>
        \A x \in {Sure(r, a)} \cup {End(r.links[a][k]) : k \in DOMAIN r.links[a]} :
          (x < upto /\ Fresh(r, a, x) /\ Waits(r, a, x, x)) =>
            LET later == {r.links[a][k].dial : k \in {j \in DOMAIN r.links[a] : r.links[a][j].dial > x}}
                y == MinOf({upto, BanFrom(r, a)} \cup later)
                others == {l \in Links(r) : l[1] # a}
            IN  Cardinality({l \in others : Link(r, l).dial > x + 1000 /\ Link(r, l).dial < y}) <=
                2 * Cardinality(As(r)) + 3 + Cardinality({l \in others : End(Link(r, l)) > x /\ End(Link(r, l)) < y /\ Was(Link(r, l))})
\* what the entry of an address says
During(r, a, x, y) == {r.spans[a][k].st : k \in {j \in DOMAIN r.spans[a] : r.spans[a][j].from <= y /\ r.spans[a][j].to >= x}}
Calm(r, a) == MinOf({BanFrom(r, a), StopAt(r), r.last}) - 300
NextDial(r, a, k) == IF k < Len(r.links[a]) THEN r.links[a][k + 1].dial - 300 ELSE Never
Covers(l, t) == Was(l) /\ l.up - 500 <= t /\ t <= End(l) + 1500
Entry(r) ==
  \A a \in As(r) :
    LET ls == r.links[a] calm == Calm(r, a)
    IN  /\ \A k \in DOMAIN ls :
             LET l == ls[k] x == l.up + 1500 y == MinOf({calm, End(l) - 100}) x2 == End(l) + 1500 y2 == MinOf({calm, NextDial(r, a, k)})
             IN  /\ Was(l) /\ x <= y => During(r, a, x, y) \subseteq {"connected"}
                 /\ x2 <= y2 => During(r, a, x2, y2) \subseteq {IF Was(l) THEN "disconnected" ELSE "failed"}
        /\ LET x == Sure(r, a) + 1000 y == MinOf({calm, IF ls = <<>> THEN Never ELSE ls[1].dial - 300})
           IN  x <= y => During(r, a, x, y) \subseteq IF Shut(r, a) THEN {"new", "failed", "busy"} ELSE {"new"}
        /\ \A k \in DOMAIN r.spans[a] : r.spans[a][k].st = "connected" =>
             LET s == r.spans[a][k]
             IN  \A t \in {s.from, s.to} \cup {End(ls[j]) + 1501 : j \in DOMAIN ls} : (s.from <= t /\ t <= s.to) => \E j \in DOMAIN ls : Covers(ls[j], t)
\* the node breaks no connection without a reason
Keeps(r) == \A x \in Links(r) : LET l == Link(r, x) IN (Was(l) /\ l.by = "node" /\ l.end >= 0) => l.end + 100 >= MinOf({StopAt(r), BanFrom(r, x[1])})
Running(r) == StopAt(r) = Never => r.returned = -1

\* C16
CutOff(r) == \A a \in As(r) : Bans(r, a) # {} =>
  /\ BanTo(r, a) < Never \/ r.last < BanFrom(r, a) + 15000
  /\ BanTo(r, a) < Never => /\ \A k \in DOMAIN r.links[a] : r.links[a][k].dial <= BanTo(r, a) + 300
                            /\ BanTo(r, a) + 2000 < r.last => \A k \in DOMAIN r.links[a] : End(r.links[a][k]) <= BanTo(r, a) + 1500
                            /\ \A k \in DOMAIN r.spans[a] : r.spans[a][k].st # "unknown" => r.spans[a][k].to <= BanTo(r, a) + 300
                            /\ \A k \in DOMAIN r.lists : a \in Elems(r.lists[k].list) => r.lists[k].from <= BanTo(r, a)
\* a ban of somebody else, or of nobody, takes no address out of the book
Others(r) == \A a \in As(r) : LET x == Sure(r, a) + 300 y == MinOf({BanFrom(r, a), r.last}) - 100 IN x <= y => "unknown" \notin During(r, a, x, y)

\* C18
OnlyThese(r) == \A a \in As(r) : Possible(r, a) = Never => \A k \in DOMAIN r.spans[a] : r.spans[a][k].st = "unknown"
FailedAt(r, a, x, y) == \E k \in DOMAIN r.links[a] : ~Was(r.links[a][k]) /\ End(r.links[a][k]) + 1500 <= x /\ NextDial(r, a, k) >= y
Lists(r) ==
  \A k \in {j \in DOMAIN r.lists : r.lists[j].to < StopAt(r)} :
    LET l == r.lists[k] in == Elems(l.list) caps == Elems(l.caps)
    IN  /\ ~l.dup /\ l.foreign = <<>>
        /\ \A a \in in : /\ Possible(r, a) <= l.to /\ ~FailedAt(r, a, l.from, l.to)
                         /\ caps # {} => caps \subseteq Elems(r.peers[a].caps) /\ \E j \in DOMAIN r.links[a] : Was(r.links[a][j]) /\ r.links[a][j].up - 500 <= l.to
        /\ \A a \in As(r) : (/\ ~Shut(r, a) /\ Sure(r, a) + 300 <= l.from /\ BanFrom(r, a) > l.to
                             /\ LET S == {j \in DOMAIN r.links[a] : r.links[a][j].dial <= l.to + 300}
                                IN  IF S = {} THEN caps = {} ELSE Was(r.links[a][MaxOf(S)]) /\ r.links[a][MaxOf(S)].up + 1500 <= l.from /\ caps \subseteq Elems(r.peers[a].caps)) => a \in in

\* C22
Stopped(r) == StopAt(r) < Never =>
  /\ r.returned >= 0 /\ r.returned <= StopAt(r) + 15000
  /\ \A x \in Links(r) : Link(r, x).dial <= StopAt(r) + 300 /\ End(Link(r, x)) <= r.returned + 3000
  /\ \A a \in As(r) : \A k \in DOMAIN r.spans[a] : r.spans[a][k].st = "connected" => r.spans[a][k].to <= r.returned + 3000
Finished(r) == \A i \in DOMAIN r.ops : r.ops[i].from >= 0 => r.ops[i].to >= 0 \/ r.last < r.ops[i].from + 15000

Broken(r, prop) ==
  CASE r.crash # "" -> "crash"
    [] prop = "C16" /\ ~CutOff(r) -> "ban"
    [] prop = "C16" /\ ~Others(r) -> "others"
    [] prop = "C16" /\ ~Finished(r) -> "stuck"
    [] prop \in {"C16", "C17"} /\ ~Keeps(r) -> "closed"
    [] prop = "C17" /\ ~NotTwice(r) -> "twice"
    [] prop = "C17" /\ ~AtMost(r) -> "many"
    [] prop = "C17" /\ ~Own(r) -> "foreign"
    [] prop = "C17" /\ ~GoesOn(r) -> "slots"
    [] prop = "C17" /\ ~Fair(r) -> "overlooked"
    [] prop = "C17" /\ ~Entry(r) -> "entry"
    [] prop = "C17" /\ ~Running(r) -> "ended"
    [] prop = "C18" /\ ~OnlyThese(r) -> "book"
    [] prop = "C18" /\ ~Others(r) -> "lost"
    [] prop = "C18" /\ ~Lists(r) -> "list"
    [] prop = "C22" /\ ~Stopped(r) -> "stop"
    [] prop = "C22" /\ ~Finished(r) -> "stuck"
    [] OTHER -> ""

VARIABLES i, done
Init == i \in DOMAIN Record /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ LET b == Broken(Record[i], IOEnv.PROP) IN IF b = "" THEN TRUE ELSE PrintT(<<"REJECT", i, b>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
