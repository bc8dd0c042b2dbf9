------------------------------ MODULE LongTrace -----------------------------
(* Judges nodes that ran for a long time. Time is cut into windows, in which *)
(* a remote treats all attempts alike. It is module Pool seen from afar: who *)
(* is chosen out of First and Second, over many rounds of its loop, in which *)
(* nobody is overlooked for ever (SF of Pick).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Prop == IOEnv.PROP
Record == JsonDeserialize(IOEnv.CASES)
\* r: [modes, known, bans, adds, windows: at the end of each [att, ups, st, known], back, after, crash]
Addrs(r) == DOMAIN r.modes
Elems(s) == {s[i] : i \in DOMAIN s}
Banned(r, w) == {b.a : b \in {x \in Elems(r.bans) : x.w <= w /\ (r.known[x.a] \/ \E y \in Elems(r.adds) : y.a = x.a /\ y.w < x.w)}}
Book(r, w) == ({a \in Addrs(r) : r.known[a]} \cup {b.a : b \in {x \in Elems(r.adds) : x.w <= w}}) \ Banned(r, w)
Serving(r, w) == {a \in Book(r, w) : r.modes[a][w] = "serve"}
Dialled(r, w) == {a \in Book(r, w) : r.modes[a][w] # "closed"}
Sum(f, S) == LET RECURSIVE T(_) T(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + T(X \ {x}) IN T(S)

\* C17
Goes(r, w) ==
  LET x == r.windows[w]
  IN  /\ Serving(r, w) = {} => \A a \in Dialled(r, w) : x.att[a] > 0
      /\ Serving(r, w) # {} => Sum(x.ups, Serving(r, w)) > 0
      \* nobody is connected at the end of a window
      /\ \A a \in Book(r, w) : x.st[a] \in {"new", "disconnected", "failed"}
      /\ Serving(r, w) = {} => \A a \in Book(r, w) : x.st[a] = "failed"
      /\ \A a \in Serving(r, w) : x.ups[a] > 0 => x.st[a] = "disconnected"
      /\ \A a \in Addrs(r) \ Book(r, w) : x.att[a] = 0
\* C16
Cut(r, w) ==
  LET x == r.windows[w]
  IN  /\ \A a \in Banned(r, w) : x.att[a] = 0 /\ x.st[a] = "unknown"
      /\ \A a \in Book(r, w) : x.st[a] # "unknown"
\* C22, in seconds
Ends(r) == r.back \in 0..12 /\ \A a \in Addrs(r) : r.after[a] = 0

Verdict(r) ==
  IF r.crash # "" THEN "crash"
  ELSE IF Len(r.windows) # Len(r.modes[1]) THEN "short"
  ELSE CASE Prop = "C17" -> (IF \A w \in DOMAIN r.windows : Goes(r, w) THEN "" ELSE "long")
         [] Prop = "C16" -> (IF \A w \in DOMAIN r.windows : Cut(r, w) THEN "" ELSE "long")
         [] Prop = "C22" -> (IF Ends(r) THEN "" ELSE "long")
VARIABLES i, done
Init == i \in DOMAIN Record /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ LET v == Verdict(Record[i]) IN IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", i, v>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
