----------------------------- MODULE NodeTrace ------------------------------
(* Judges recorded behaviour of a real node with its peers, step by step,    *)
(* against module Node. Each property looks at its own side of a step.       *)
EXTENDS Node, TLC, Json, IOUtils
LOCAL W == INSTANCE Wire
Prop == IOEnv.PROP
Given == JsonDeserialize(IOEnv.CASES)

\* With the real chain, it is module Chain that says what the rules make of content
LOCAL C == INSTANCE Chain
Ruled(w, f) ==
  LET s == [main |-> w.store.main, side |-> w.store.side, sideKnown |-> w.store.sideKnown]
      b(id) == w.all[CHOOSE j \in DOMAIN w.all : w.all[j].id = id]
  IN  CASE f.k = "block" -> [f EXCEPT !.ok = C!Process(s, w.store.genesisBlock, b(f.id)) # "refused"]
        [] f.k = "header" -> [f EXCEPT !.ok = b(f.id).head]
        [] f.k = "headers" -> [f EXCEPT !.ok = \A j \in DOMAIN f.ids : b(f.ids[j]).head]
        [] f.k = "getheaders" -> [f EXCEPT !.loc = C!Headers(s, w.store.genesisBlock, f.hs)]
        [] OTHER -> f
\* with the harness's chain, an answer to a header request ends with the age of the chain
Aged(o) ==
  LET at(f) == IF f.k = "getheaders" /\ o.age > 0 THEN [f EXCEPT !.loc = Append(@, 20000 + o.age)] ELSE f
      all(l) == [j \in DOMAIN l |-> at(l[j])]
  IN  CASE o.op = "frame" -> [o EXCEPT !.f = at(@)]
        [] o.op = "stream" -> [o EXCEPT !.fs = all(@)]
        [] o.op = "burst" -> [o EXCEPT !.lists = [q \in DOMAIN @ |-> all(@[q])]]
        [] OTHER -> o
Runs == [i \in DOMAIN Given |->
           LET r == Given[i]
           IN  IF "world" \in DOMAIN r THEN [r EXCEPT !.steps = [k \in DOMAIN @ |-> IF @[k].op = "frame" THEN [@[k] EXCEPT !.f = Ruled(r.world, @)] ELSE @[k]]]
               ELSE [r EXCEPT !.steps = [k \in DOMAIN @ |-> Aged(@[k])]]]
\* sets come as lists
Fix(f) == IF f.k = "getaddrs" THEN [f EXCEPT !.caps = ToSet(@)] ELSE f

Node(r, o) == [peers |-> [p \in DOMAIN o.before |-> LET e == o.before[p] IN [st |-> e.st, open |-> e.open, h |-> e.h, td |-> e.td, caps |-> ToSet(e.caps)]],
               chain |-> o.tip, blocks |-> ToSet(IF r.kind = "real" THEN r.blocks ELSE o.kept), txs |-> r.txs]
\* peers whose remote side has stopped reading before step k
Stalled(r, k) == {r.steps[j].from : j \in {i \in 1..k : r.steps[i].op = "stall"}}

\* after somebody came back
Came(r, n, o) == Back(n, o.from, r.peers[o.from].td)

SumOf(r, id) == LET S == {j \in DOMAIN r.blockSums : r.blockSums[j].id = id} IN r.blockSums[CHOOSE j \in S : TRUE].sum
\* does message m say what answer a asks for; the content of address lists is not looked at here
Says(r, m, a) ==
  CASE a.k = "pong" -> m.k = "pong" /\ m.h = a.h /\ m.td = a.td
    [] a.k = "headers" -> m.k = "headers" /\ m.loc = a.loc
    [] a.k = "block" -> m.k = "block" /\ m.sum = SumOf(r, a.id)
    [] a.k = "addrs" -> m.k = "addrs"
SayAll(r, ms, as) == Len(ms) = Len(as) /\ \A i \in DOMAIN ms : Says(r, ms[i], as[i])
BlocksOf(ms) == SelectSeq(ms, LAMBDA x : x.k = "block")
Others(ms) == SelectSeq(ms, LAMBDA x : x.k # "block")

-----------------------------------------------------------------------------
(* C14: answers *)
\* all at once: answers in the order of the requests, each pong a tip the chain had, and tips do not go back
BurstAnswers(r, o, n, p) ==
  LET asks == o.lists[p]
      want == FoldLeft(LAMBDA s, f : s \o Answer(n, p, Fix(f)), <<>>, asks)
      got == o.got[p]
      from(at, m) == SelectInSeq([j \in DOMAIN o.tips |-> j >= at /\ o.tips[j].h = m.h /\ o.tips[j].td = m.td], LAMBDA x : x)
      pongs == SelectSeq(got, LAMBDA x : x.k = "pong")
  IN  /\ Len(got) = Len(want)
      /\ \A i \in DOMAIN got : got[i].k = want[i].k /\ (want[i].k # "pong" => Says(r, got[i], want[i]))
      /\ FoldLeft(LAMBDA at, m : IF at = 0 THEN 0 ELSE from(at, m), 1, pongs) # 0
Answers(r, k) ==
  LET o == r.steps[k]
      n == Node(r, o)
      \* a block that is passed on is not an answer
      said(q) == IF o.f.k = "block" /\ r.kind = "real" THEN Others(o.got[q]) ELSE o.got[q]
  IN  CASE o.op = "frame" -> \A q \in DOMAIN o.got : SayAll(r, said(q), IF q = o.from THEN Answer(n, q, Fix(o.f)) ELSE <<>>)
        [] o.op = "burst" -> \A q \in DOMAIN o.got \ Stalled(r, k) : BurstAnswers(r, o, n, q)
        [] OTHER -> \A q \in DOMAIN o.got \ Stalled(r, k) : o.got[q] = <<>>

-----------------------------------------------------------------------------
(* C19: what blocks go where *)
Spread(r, k) ==
  LET o == r.steps[k]
      n == Node(r, o)
  IN  IF o.op = "stream"
      THEN LET at == SelectInSeq(o.fs, LAMBDA f : f.k = "block")
               then == FoldLeft(LAMBDA x, f : After(x, o.from, f), n, SubSeq(o.fs, 1, at - 1))
               hear == Hears(then, o.from, o.fs[at]) \ Stalled(r, k)
           IN  \A q \in DOMAIN o.got : LET bs == BlocksOf(o.got[q]) IN IF q \in hear THEN Len(bs) = 1 /\ bs[1].sum = o.sum ELSE bs = <<>>
      ELSE IF o.op # "frame" THEN \A q \in DOMAIN o.got : BlocksOf(o.got[q]) = <<>>
      ELSE LET hear == IF o.f.k = "block" /\ o.f.ok THEN Hears(n, o.from, o.f) \ Stalled(r, k) ELSE {}
           IN  \A q \in DOMAIN o.got :
                 LET bs == BlocksOf(o.got[q])
                     due == IF q = o.from THEN SelectSeq(Answer(n, q, Fix(o.f)), LAMBDA x : x.k = "block") ELSE <<>>
                 IN  IF q \in hear THEN Len(bs) = 1 /\ bs[1].sum = o.sum ELSE SayAll(r, bs, due)

-----------------------------------------------------------------------------
(* C20: what is known of peers *)
Same(e, x) == x.st = "none" \/ (e.h = x.h /\ e.td = x.td)
Knows(r, k) ==
  LET o == r.steps[k]
      n == Node(r, o)
  IN  CASE o.op = "frame" -> \A q \in DOMAIN n.peers : Same(After(n, o.from, o.f).peers[q], o.after[q])
        [] o.op = "stream" -> \A q \in DOMAIN n.peers : Same(IF q = o.from THEN FoldLeft(LAMBDA x, f : After(x, q, f), n, o.fs).peers[q] ELSE n.peers[q], o.after[q])
        [] o.op = "burst" -> \A q \in DOMAIN n.peers : Same(FoldLeft(LAMBDA x, f : After(x, q, f), n, o.lists[q]).peers[q], o.after[q])
        [] o.op = "return" -> \A q \in DOMAIN n.peers : Same(Came(r, n, o).peers[q], o.after[q])
        [] OTHER -> \A q \in DOMAIN n.peers : Same(n.peers[q], o.after[q])

-----------------------------------------------------------------------------
(* C21: who is banned *)
Bans(r, k) ==
  LET o == r.steps[k]
      n == Node(r, o)
      a == CASE o.op = "frame" -> After(n, o.from, o.f) [] o.op = "return" -> Came(r, n, o) [] OTHER -> n
  IN  \A q \in DOMAIN n.peers : n.peers[q].open => (o.after[q].open = a.peers[q].open /\ o.after[q].st = a.peers[q].st)

-----------------------------------------------------------------------------
(* C12: what hostile input does *)
CallsOf(f) ==
  CASE f.k = "block" -> <<<<"block", f.id>>>>
    [] f.k = "getblock" -> <<<<"getblock", f.id>>>>
    [] OTHER -> <<>>
Calls(o) == LET l == [i \in DOMAIN o.calls |-> IF o.calls[i].fn \in {"block", "getblock"} THEN <<<<o.calls[i].fn, o.calls[i].id>>>> ELSE <<>>] IN FlattenSeq(l)
Kept(o, q) == o.after[q].open = o.before[q].open /\ (o.before[q].open => o.after[q].st = o.before[q].st)
                 /\ Others(o.got[q]) = <<>>
\* the frames of a stream up to the first one that ends it
Good(fs) == LET e == SelectInSeq(fs, LAMBDA f : f.k \in Broken \cup {"close"}) IN IF e = 0 THEN fs ELSE SubSeq(fs, 1, e - 1)
Ends(n, fs) == (\E i \in DOMAIN fs : fs[i].k \in Broken \cup {"close"}) \/ (\E i \in DOMAIN Good(fs) : Offence(n, fs[i]))
\* how often the chain or the pool is asked on account of these bytes: once for a complete and well-formed message that concerns them
Acted(n, b) ==
  LET kinds == {x \in {"getheaders", "header", "headers", "getblock", "block", "tx"} : W!TypeOf[x] = b[3] /\ (x = "tx" => n.txs)}
  IN  IF Len(b) < 11 THEN 0
      ELSE IF kinds = {} \/ W!NumAt(b, 4, 8) > Len(b) - 11 THEN 0
      ELSE IF W!ParseFrame(CHOOSE x \in kinds : TRUE, b) # 0 THEN 1 ELSE 0
\* what is known of peers comes from messages that are complete and well-formed
FoldAfter(n, p, fs) == FoldLeft(LAMBDA x, f : After(x, p, f), n, fs)
Learned(b) == \E x \in {"ping", "pong", "block"} : Len(b) >= 11 /\ W!TypeOf[x] = b[3] /\ W!NumAt(b, 4, 8) <= Len(b) - 11 /\ W!ParseFrame(x, b) # 0
Learns(r, k, n, p) ==
  LET o == r.steps[k] IN
  /\ \A q \in DOMAIN n.peers \ ({p} \cup Stalled(r, k)) : Same(n.peers[q], o.after[q])
  /\ IF p = 0 THEN TRUE
     ELSE IF o.op = "return" THEN Same(Came(r, n, o).peers[p], o.after[p])
     ELSE IF o.op = "fuzz" THEN Learned(o.bytes) \/ Same(n.peers[p], o.after[p])
     ELSE Same(FoldAfter(n, p, Good(IF o.op = "stream" THEN o.fs ELSE <<o.f>>)).peers[p], o.after[p])
Hostile(r, k) ==
  LET o == r.steps[k]
      n == Node(r, o)
      p == IF "from" \in DOMAIN o THEN o.from ELSE 0
      fs == IF o.op = "stream" THEN o.fs ELSE <<o.f>>
      good == Good(fs)
      want == FoldLeft(LAMBDA s, f : s \o Answer(n, p, Fix(f)), <<>>, good)
      refused == \E i \in DOMAIN good : Offence(n, good[i])
  IN  IF o.op = "fuzz" THEN /\ \A q \in DOMAIN n.peers \ {p} : Kept(o, q)
                            /\ ~o.after[p].open
                            /\ Len(SelectSeq(o.calls, LAMBDA x : x.fn # "getheaders" \/ ~(\E j \in DOMAIN x.ids : x.ids[j] = 10000))) = Acted(n, o.bytes)     \* but for the flood of a stalled peer
      ELSE IF o.op = "return" THEN /\ \A q \in DOMAIN n.peers \ ({p} \cup Stalled(r, k)) : Kept(o, q)
                                   /\ o.after[p].open /\ o.after[p].st = "connected" /\ o.got[p] = <<>>
      ELSE IF o.op \notin {"frame", "stream"} THEN \A q \in DOMAIN n.peers \ Stalled(r, k) : Kept(o, q)
      ELSE /\ \A q \in DOMAIN n.peers \ {p} : Kept(o, q)
           /\ o.after[p].open = ~Ends(n, fs)
           /\ Ends(n, fs) => o.after[p].st # "connected"
           \* nothing behind the broken frame was acted on; after an offence the connection goes down at some point
           /\ LET done == Calls(o)
                  calls == FlattenSeq([i \in DOMAIN good |-> CallsOf(good[i])])
              IN  IF refused THEN IsPrefix(done, calls) ELSE done = calls
           \* answers under way may be lost when the connection breaks
           /\ IF Ends(n, fs) THEN Len(o.got[p]) <= Len(want) /\ \A i \in DOMAIN o.got[p] : Says(r, o.got[p][i], want[i])
              ELSE SayAll(r, o.got[p], want)

-----------------------------------------------------------------------------
(* What no delay explains, over a whole behaviour: something for nothing     *)
\* all that q has sent, of what is not a flood or damaged bytes
SentIn(o, q) ==
  CASE o.op \in {"frame", "return"} /\ o.from = q -> <<o.f>>
    [] o.op = "stream" /\ o.from = q -> o.fs
    [] o.op = "burst" -> o.lists[q]
    [] OTHER -> <<>>
Sent(r, q) == FlattenSeq([j \in DOMAIN r.steps |-> SentIn(r.steps[j], q)])
Got(r, q) == FlattenSeq([j \in DOMAIN r.steps |-> r.steps[j].got[q]])
Wild(r) == {r.steps[j].from : j \in {i \in DOMAIN r.steps : r.steps[i].op \in {"stall", "fuzz"}}}
OfKind(l, x) == SelectSeq(l, LAMBDA f : f.k = x)
Tips(r) == UNION {{r.steps[j].tip} \cup ToSet(r.steps[j].tips) : j \in DOMAIN r.steps}
             \cup {r.steps[j].to : j \in {i \in DOMAIN r.steps : r.steps[i].op = "tip"}}
\* more answers than requests, or answers nobody could give
Foul(r, sent, x) ==
  CASE x.k = "pong" -> ~\E t \in Tips(r) : t.h = x.h /\ t.td = x.td
    [] x.k = "headers" -> ~\E f \in ToSet(OfKind(sent, "getheaders")) : f.loc = x.loc
    [] OTHER -> x.k \notin {"addrs", "block"}
Unasked(r, q, sent, got) ==
  \/ \E x \in {<<"ping", "pong">>, <<"getheaders", "headers">>, <<"getaddrs", "addrs">>} : Len(OfKind(got, x[2])) > Len(OfKind(sent, x[1]))
  \/ \E j \in DOMAIN got : Foul(r, sent, got[j])
\* blocks that nobody has sent, that the rules have refused, or more often than they came
SumsAt(r) == {j \in DOMAIN r.steps : "sum" \in DOMAIN r.steps[j]}
Stray(r, q, sent, got) ==
  LET own == {SumOf(r, f.id) : f \in {g \in ToSet(OfKind(sent, "getblock")) : g.id \in ToSet(r.blocks)}}
      times(s) == Cardinality({j \in SumsAt(r) : r.steps[j].sum = s /\ r.steps[j].from # q /\ \E f \in ToSet(SentIn(r.steps[j], r.steps[j].from)) : f.k = "block" /\ f.ok})
      bs == SelectSeq(got, LAMBDA x : x.k = "block" /\ x.sum \notin own)
  IN  \E j \in DOMAIN bs : Len(SelectSeq(bs, LAMBDA x : x.sum = bs[j].sum)) > times(bs[j].sum)
Blocky(r) == \E j \in DOMAIN r.steps : \/ r.steps[j].op = "burst" /\ \E q \in DOMAIN r.steps[j].lists : OfKind(r.steps[j].lists[q], "block") # <<>>
                                       \/ r.steps[j].op = "stream" /\ Len(OfKind(r.steps[j].fs, "block")) > 1
                                       \/ r.steps[j].op = "fuzz"
\* figures that q has never named
Invented(r, q, sent) ==
  LET named == {[h |-> r.start[q].h, td |-> r.start[q].td]} \cup {[h |-> f.h, td |-> f.td] : f \in {g \in ToSet(sent) : g.k \in {"ping", "pong"} \/ (g.k = "block" /\ g.ok)}}
  IN  \E j \in DOMAIN r.steps : LET e == r.steps[j].after[q] IN e.st # "none" /\ [h |-> e.h, td |-> e.td] \notin named
\* a connection down, or a ban, that q has given no cause for
Offends(r, sent) == \E j \in DOMAIN sent : sent[j].k \in Judged /\ ~sent[j].ok /\ (sent[j].k = "tx" => r.txs)
NoCause(r, q, sent) ==
  LET ended == Offends(r, sent) \/ \E j \in DOMAIN sent : sent[j].k \in Broken \cup {"close"}
  IN  \E j \in DOMAIN r.steps : LET e == r.steps[j].after[q] IN (~e.open /\ ~ended) \/ (e.st = "none" /\ ~Offends(r, sent))
\* the chain asked about blocks more often than they came
Busy(r) ==
  LET all == FlattenSeq([j \in DOMAIN r.steps |-> Calls(r.steps[j])])
      sent == FlattenSeq([q \in DOMAIN r.start |-> FlattenSeq([j \in DOMAIN r.steps |-> LET l == SentIn(r.steps[j], q) IN FlattenSeq([i \in DOMAIN l |-> CallsOf(l[i])])])])
  IN  \E j \in DOMAIN all : Len(SelectSeq(all, LAMBDA x : x = all[j])) > Len(SelectSeq(sent, LAMBDA x : x = all[j]))
Never(r) ==
  /\ \A q \in DOMAIN r.start \ Wild(r) :
       LET sent == Sent(r, q)
           got == Got(r, q)
       IN  ~(CASE Prop = "C14" -> Unasked(r, q, sent, got)
               [] Prop = "C19" -> ~Blocky(r) /\ Stray(r, q, sent, got)
               [] Prop = "C20" -> Invented(r, q, sent)
               [] Prop = "C21" -> NoCause(r, q, sent)
               [] Prop = "C12" -> NoCause(r, q, sent) \/ Unasked(r, q, sent, got) \/ Invented(r, q, sent))
  /\ (Prop = "C12" /\ r.kind # "real" /\ Wild(r) = {}) => ~Busy(r)

-----------------------------------------------------------------------------
Fits(r, k) ==
  CASE Prop = "C14" -> Answers(r, k)
    [] Prop = "C19" -> Spread(r, k)
    [] Prop = "C20" -> Knows(r, k)
    [] Prop = "C21" -> Bans(r, k)
    [] Prop = "C12" -> Hostile(r, k) /\ Learns(r, k, Node(r, r.steps[k]), IF r.steps[k].op \in {"frame", "stream", "fuzz", "return"} THEN r.steps[k].from ELSE 0)

VARIABLES i, k, done
Init == i \in DOMAIN Runs /\ k \in -1..Len(Runs[i].steps) /\ done = FALSE
Ok == IF k = -1 THEN Never(Runs[i])
      ELSE IF k = 0 THEN Runs[i].crash = "" /\ \A p \in DOMAIN Runs[i].start : Runs[i].start[p].open /\ Runs[i].start[p].st = "connected"
      ELSE Runs[i].steps[k].crash = "" /\ Fits(Runs[i], k)
Judge == ~done /\ done' = TRUE /\ UNCHANGED <<i, k>> /\ IF Ok THEN TRUE ELSE PrintT(<<"REJECT", i, k>>)
Spec == Init /\ [][Judge]_<<i, k, done>>
=============================================================================
