----------------------------- MODULE WireProps ------------------------------
(* Writing and reading fit together: whatever is written is read back to its *)
(* end, nothing shorter is read, different objects are written differently,  *)
(* and the order of elements does not show.                                  *)
EXTENDS Wire, TLC
CONSTANT Deep

B(n, x) == [i \in 1..n |-> (x + i) % 256]
Pt(x) == <<8 + (x % 2)>> \o B(32, x)
Words == {W0, WOf(1), <<65535, 65535, 65535, 65535>>}
Hdr(v, eb) == [ver |-> v, height |-> WOf(v), ts |-> <<1, 2, 3, 4>>, prev |-> B(32, v), prevRoot |-> B(32, 1), utxo |-> B(32, 2), rproof |-> B(32, 3),
               kern |-> B(32, 4), offset |-> B(32, 5), outMmr |-> WOf(7), kernMmr |-> WOf(9), td |-> <<5, 6, 7, 8>>, scaling |-> <<3, v>>,
               nonce |-> <<9, 9, 9, 9>>, eb |-> eb, nonces |-> [i \in 1..42 |-> <<i * v % 2, 0>>]]
In(x) == [f |-> x % 2, commit |-> Pt(x)]
Out(x) == [f |-> x % 2, commit |-> Pt(x), proof |-> B(ProofLen, x)]
Ker(x) == [f |-> x % 2, fee |-> WOf(x), lock |-> WOf(2 * x), excess |-> Pt(x), sig |-> B(64, x)]
Id(x) == B(6, 100 * x)
L(n) == UNION {[1..k -> {1, 2, 3}] : k \in 0..n}
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Addr == {[ip |-> <<1, 2, 3, 4>>, port |-> 0], [ip |-> <<1, 2, 3, 4>>, port |-> 65535], [ip |-> B(16, 3), port |-> 258]}
Texts == {<<>>, <<65>>, B(300, 0)}
Objects ==
  {[kind |-> k, td |-> t, height |-> h] : k \in {"ping", "pong"}, t \in Words, h \in Words}
  \cup {[kind |-> "getaddrs", caps |-> c] : c \in {<<0, 0>>, <<7, 0>>, <<1, 65535>>}}
  \cup {[kind |-> "addrs", addrs |-> a] : a \in UNION {[1..n -> Addr] : n \in 0..3}}
  \cup {[kind |-> "getblock", hash |-> B(32, x)] : x \in 0..3}
  \cup {[kind |-> k, hashes |-> Map(LAMBDA x : B(32, x), s)] : k \in {"locator", "getheaders"}, s \in L(3)}
  \cup {[kind |-> "header", h |-> Hdr(v, eb)] : v \in 0..2, eb \in {1, 7, 8, 29, 32, 33, 64}}
  \cup {[kind |-> "headers", hs |-> Map(LAMBDA x : Hdr(x, 29), s)] : s \in L(2)}
  \cup {[kind |-> "block", h |-> Hdr(1, 29), ins |-> Map(In, i), outs |-> Map(Out, o), kers |-> Map(Ker, k)] : i \in L(2), o \in L(1), k \in L(IF Deep THEN 2 ELSE 1)}
  \cup {[kind |-> "tx", offset |-> B(32, 9), ins |-> Map(In, i), outs |-> Map(Out, o), kers |-> Map(Ker, k)] : i \in L(2), o \in L(1), k \in L(IF Deep THEN 2 ELSE 1)}
  \cup {[kind |-> "compact", h |-> Hdr(1, 31), outs |-> Map(Out, o), kers |-> Map(Ker, k), ids |-> Map(Id, d)] : o \in L(1), k \in L(1), d \in L(IF Deep THEN 3 ELSE 2)}
  \cup {[kind |-> "error", code |-> c, msg |-> t] : c \in {<<0, 0>>, <<100, 0>>}, t \in Texts}
  \cup {[kind |-> "hand", version |-> v, caps |-> <<15, 0>>, nonce |-> <<1, 2, 3, 4>>, td |-> WOf(1), sender |-> a, receiver |-> c, agent |-> t, genesis |-> B(32, 0)] :
          v \in {<<1, 0>>, <<2, 0>>, <<1, 1>>}, a \in Addr, c \in Addr, t \in Texts}
  \cup {[kind |-> "shake", version |-> v, caps |-> <<15, 0>>, td |-> WOf(1), agent |-> t, genesis |-> B(32, 0)] : v \in {<<1, 0>>, <<0, 0>>}, t \in Texts}

Valid(o) == "version" \in DOMAIN o => o.version = ProtocolVersion
Lists == {"ins", "outs", "kers", "ids"}

VARIABLES o, done
Init == o \in Objects /\ done = FALSE
Check ==
  LET b == Enc(o)
  IN  /\ IF Valid(o) THEN Parse(o.kind, b) = Len(b) + 1 ELSE Parse(o.kind, b) = 0
      /\ \A n \in (IF Len(b) < 400 \/ Deep THEN 0..(Len(b) - 1) ELSE {0, 1, 32, 246, 260, 300, 399, Len(b) - 64, Len(b) - 1}) : Parse(o.kind, SubSeq(b, 1, n)) = 0
      /\ Parse(o.kind, b \o <<1, 2, 3>>) = Parse(o.kind, b)          \* what follows does not matter
      /\ \A l \in Lists \cap DOMAIN o : LET r == [o EXCEPT ![l] = Reverse(@)] IN Enc(r) = b
Next == ~done /\ done' = TRUE /\ UNCHANGED o /\ IF Check THEN TRUE ELSE Assert(FALSE, <<"not consistent", o.kind>>)
Spec == Init /\ [][Next]_<<o, done>>
Frames == done => o.kind \notin DOMAIN TypeOf \/ ~Valid(o) \/ Len(Enc(o)) > 3000 \/ ParseFrame(o.kind, Frame(o)) = Len(Frame(o)) + 1
=============================================================================
