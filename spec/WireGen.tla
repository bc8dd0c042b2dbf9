------------------------------ MODULE WireGen -------------------------------
(* Byte strings to read: every limit, kind, flag and count at and around its *)
(* edges, in every place it occurs. Written to the file OUT.                 *)
EXTENDS Wire, TLC, Json, IOUtils

B(n, x) == [i \in 1..n |-> (7 * x + 3 * i) % 256]
Pt(x) == <<8 + (x % 2)>> \o B(32, x)
Hdr(v, eb) == [ver |-> v, height |-> WOf(v), ts |-> <<1, 2, 3, 4>>, prev |-> B(32, v), prevRoot |-> B(32, 1), utxo |-> B(32, 2), rproof |-> B(32, 3),
               kern |-> B(32, 4), offset |-> B(32, 5), outMmr |-> WOf(7), kernMmr |-> WOf(9), td |-> <<5, 6, 7, 8>>, scaling |-> <<3, v>>,
               nonce |-> <<9, 9, 9, 9>>, eb |-> eb, nonces |-> [i \in 1..42 |-> <<i, 0>>]]
In(x) == [f |-> x % 2, commit |-> Pt(x)]
Out(x) == [f |-> x % 2, commit |-> Pt(x), proof |-> B(ProofLen, x)]
Ker(x) == [f |-> x % 2, fee |-> WOf(x), lock |-> WOf(2 * x), excess |-> Pt(x), sig |-> B(64, x)]
Put(b, p, x) == [i \in 1..Len(b) |-> IF i >= p /\ i < p + Len(x) THEN x[i - p + 1] ELSE b[i]]
Rep(x, n) == FlattenSeq([i \in 1..n |-> x])
Lesser(a, b) == IF a < b THEN a ELSE b

Big8 == {BE8(w) : w \in {WOf(1000001), <<0, 0, 1, 0>>, <<1, 0, 1, 0>>, <<65535, 32767, 0, 0>>, <<0, 0, 0, 32768>>, <<1, 0, 0, 32768>>,
                          <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 32767>>}}
Case(kind, b) == [kind |-> kind, frame |-> FALSE, bytes |-> b]
Cases(kind, bs) == {Case(kind, b) : b \in bs}

H(eb) == EncHeader(Hdr(1, eb))
Hashes(n) == Rep(B(32, n), n)
A4 == EncAddr([ip |-> <<1, 2, 3, 4>>, port |-> 13414])
A6 == EncAddr([ip |-> B(16, 1), port |-> 1])
Locators == {<<n>> \o Hashes(m) : n \in {0, 1, 2, 13, 14, 15, 16, 28, 128, 255}, m \in {0, 1, 13, 14, 15, 255}}
AddrLists == {BE4(n) \o Rep(a, m) : n \in {<<0, 0>>, <<1, 0>>, <<255, 0>>, <<256, 0>>, <<257, 0>>, <<512, 0>>, <<0, 1>>, <<1, 1>>, <<0, 32768>>, <<65535, 65535>>},
                                    a \in {A4, A6}, m \in {0, 1, 255, 256, 257}}
             \cup {BE4(<<1, 0>>) \o <<f>> \o B(18, 1) : f \in {0, 1, 2, 3, 4, 6, 127, 128, 129, 254, 255}}
             \cup {BE4(<<2, 0>>) \o a \o <<f>> \o B(18, 1) : f \in {0, 1, 2, 128, 255}, a \in {A4, A6}}
Sizes == {0, 1, 2, 7, 8, 16, 24, 28, 29, 30, 31, 32, 33, 34, 48, 63, 64, 65, 66, 127, 128, 129, 255}
Proofs == {<<eb>> \o B(n, eb) : eb \in Sizes, n \in {0, 6, 152, 153, 200, 335, 336, 1400}} \cup {<<eb>> \o B(PackedLen(eb) - 1, eb) : eb \in Sizes \ {0}}
HeadersOf == {Put(H(64), 247, <<eb>>) : eb \in Sizes}
HeaderLists == {BE2(n) \o Rep(H(1), m) : n \in {0, 1, 2, 513, 514, 1024, 32768, 65535}, m \in {0, 1, 2}} \cup {BE2(2) \o H(29) \o Put(H(29), 247, <<eb>>) : eb \in {0, 29, 65}}
Lens == {WOf(n) : n \in {0, 1, 674, 675, 676, 1350, 5133, 5134, 5135, 65536 + 675}} \cup {<<675, 0, 1, 0>>, <<675, 0, 0, 1>>, <<675, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>}
Outputs == {OutputHead(Out(1)) \o BE8(w) \o B(m, 3) : w \in Lens, m \in {0, 674, 675, 676, 5133, 5134, 5135}}
           \cup {Put(EncOutput(Out(1)), 2, <<s>>) : s \in {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 72, 136, 137, 255}}
           \cup {Put(EncOutput(Out(1)), 1, <<s>>) : s \in {0, 1, 2, 255}}
Kernels == {Put(EncKernel(Ker(1)), 18, <<s>>) : s \in {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 72, 136, 137, 255}} \cup {Put(EncKernel(Ker(1)), 1, <<s>>) : s \in {0, 1, 2, 255}}
Body(is, os, ks) == Len8(is) \o Len8(os) \o Len8(ks) \o FlattenSeq([i \in DOMAIN is |-> EncInput(In(is[i]))])
                    \o FlattenSeq([i \in DOMAIN os |-> EncOutput(Out(os[i]))]) \o FlattenSeq([i \in DOMAIN ks |-> EncKernel(Ker(ks[i]))])
Orders == {<<>>, <<1>>, <<1, 1>>} \cup {<<a, b>> : a \in 1..2, b \in 1..2} \cup {<<a, b, c>> : a \in 1..3, b \in 1..3, c \in 1..3}
Bodies == {Body(x, <<>>, <<>>) : x \in Orders} \cup {Body(<<1>>, x, <<1>>) : x \in {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<3, 4>>, <<4, 3>>}}
          \cup {Body(<<>>, <<>>, x) : x \in Orders} \cup {Body(<<4, 5>>, <<1>>, x) : x \in {<<1, 2, 3, 4>>, <<4, 3, 2, 1>>}}
          \cup {Put(Body(<<1, 1>>, <<2>>, <<3, 3>>), 8 * k + 1, x) : k \in 0..2, x \in Big8 \cup {BE8(WOf(0)), BE8(WOf(1)), BE8(WOf(2)), BE8(WOf(3))}}
Txs == {B(32, 1) \o b : b \in Bodies}
Blocks == {H(29) \o b : b \in Bodies}
CompactTails == {<<o, k>> \o BE8(w) \o Rep(EncOutput(Out(1)), Lesser(o, m)) \o Rep(EncKernel(Ker(2)), Lesser(k, m)) \o Rep(B(6, 1), d) :
                  o \in {0, 1, 2}, k \in {0, 1, 3}, w \in {WOf(0), WOf(2), WOf(3)}, m \in {1, 2, 3}, d \in {0, 2, 3}}
                \cup {<<0, 0>> \o x \o Rep(B(6, 1), 5) : x \in Big8}
                \cup {<<255, 0>> \o BE8(W0) \o Rep(EncOutput(Out(1)), 3), <<0, 255>> \o BE8(W0) \o Rep(EncKernel(Ker(1)), 255), <<0, 255>> \o BE8(W0) \o Rep(EncKernel(Ker(1)), 254)}
Compacts == {H(29) \o t : t \in CompactTails}
TextLens == {BE8(w) : w \in {WOf(0), WOf(1), WOf(5), WOf(6), WOf(20000000), WOf(20000001), <<0, 0, 1, 0>>, <<5, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 32767>>}}
Errors == {BE4(<<3, 0>>) \o l \o B(n, 1) : l \in TextLens, n \in {0, 4, 5, 6}}
Versions == {<<1, 0>>, <<0, 0>>, <<2, 0>>, <<257, 0>>, <<1, 1>>, <<1, 32768>>, <<0, 256>>, <<65535, 65535>>}
Shorts == {B(n, 2) : n \in {0, 1, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 34, 35}}

Plain ==
  Cases("locator", Locators) \cup Cases("getheaders", Locators) \cup Cases("addrs", AddrLists) \cup Cases("proof", Proofs)
  \cup Cases("header", HeadersOf) \cup Cases("headers", HeaderLists) \cup Cases("output", Outputs) \cup Cases("kernel", Kernels)
  \cup Cases("tx", Txs) \cup Cases("block", Blocks) \cup Cases("compact", Compacts) \cup Cases("error", Errors)
  \cup Cases("ping", Shorts) \cup Cases("pong", Shorts) \cup Cases("getaddrs", Shorts) \cup Cases("getblock", Shorts) \cup Cases("input", Shorts)

\* frames: head and body of one kind, read as a message of that kind
Sample == [ping |-> B(16, 1), pong |-> B(16, 2), getaddrs |-> B(4, 1), addrs |-> BE4(<<2, 0>>) \o A4 \o A6, locator |-> <<1>> \o Hashes(1),
           getheaders |-> <<2>> \o Hashes(2), header |-> H(29), headers |-> BE2(1) \o H(29), getblock |-> B(32, 4), block |-> H(30) \o Body(<<1>>, <<1>>, <<1>>),
           compact |-> H(30) \o <<1, 1>> \o BE8(WOf(1)) \o EncOutput(Out(1)) \o EncKernel(Ker(1)) \o B(6, 1), tx |-> B(32, 1) \o Body(<<1>>, <<1>>, <<1>>),
           error |-> BE4(<<3, 0>>) \o BE8(WOf(5)) \o B(5, 1)]
Framed(kind, b) == [kind |-> kind, frame |-> TRUE, bytes |-> b]
Frames(kind) ==
  LET body == Sample[kind]
      t == TypeOf[kind]
      len == WOf(Len(body))
  IN  {Framed(kind, FrameHead(y, len) \o body) : y \in 0..22 \cup {t + 128, 255}}
      \cup {Framed(kind, m \o <<t>> \o BE8(len) \o body) : m \in {<<84, 52>>, <<84, 53>>, <<85, 52>>, <<52, 84>>, <<0, 0>>, <<84, 0>>, <<212, 52>>}}
      \cup {Framed(kind, FrameHead(t, w) \o body) : w \in {WOf(Len(body) - 1), WOf(0), WOf(20000001), <<len[1], 0, 1, 0>>, <<len[1], 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>}}
      \cup {Framed(kind, SubSeq(FrameHead(t, len) \o body, 1, n)) : n \in {0, 1, 2, 3, 10, 11, 12, 10 + Len(body)}}

-----------------------------------------------------------------------------
(* Streams: pre, then supply times unit, then post; declared elements, max   *)
(* of them allowed.                                                          *)
Stream(kind, pre, unit, post, declared, max, supply) ==
  [kind |-> kind, pre |-> pre, unit |-> unit, post |-> post, declared |-> declared, max |-> max, supply |-> supply]
Count(n) == BE8(WOf(n))
M == MaxElements
Streams ==
  {Stream("headers", BE2(n), H(1), <<>>, n, MaxHeaders, s) : n \in {511, 512, 513}, s \in {511, 512, 513}}
  \cup {Stream("error", BE4(<<3, 0>>) \o Count(n), <<65>>, <<>>, n, MaxMsgLen, s) : n \in {MaxMsgLen - 1, MaxMsgLen, MaxMsgLen + 1, 2 * MaxMsgLen}, s \in {MaxMsgLen - 1, MaxMsgLen, MaxMsgLen + 1}}
  \cup {Stream("tx", B(32, 1) \o Count(n) \o Count(0) \o Count(0), EncInput(In(1)), <<>>, n, M, s) : n \in {M, M + 1}, s \in {300, M, M + 20000}}
  \cup {Stream("block", H(29) \o Count(n) \o Count(0) \o Count(0), EncInput(In(1)), <<>>, n, M, s) : n \in {M, M + 1}, s \in {300, M, M + 20000}}
  \cup {Stream("compact", H(29) \o <<0, 0>> \o Count(n), B(6, 1), <<>>, n, M, s) : n \in {M, M + 1}, s \in {300, M, M + 20000}}
  \cup {Stream(k[1], k[2] \o Count(0) \o Count(n) \o Count(0), EncOutput(Out(1)), <<>>, n, M, 100) : k \in {<<"tx", B(32, 1)>>, <<"block", H(29)>>}, n \in {M, M + 1, 40 * M}}
  \cup {Stream(k[1], k[2] \o Count(0) \o Count(0) \o Count(n), EncKernel(Ker(1)), <<>>, n, M, 400) : k \in {<<"tx", B(32, 1)>>, <<"block", H(29)>>}, n \in {M, M + 1, 40 * M}}

ASSUME JsonSerialize(IOEnv.OUT, [plain |-> SetToSeq(Plain \cup UNION {Frames(k) : k \in DOMAIN Sample \ {"locator"}}), streams |-> SetToSeq(Streams)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
