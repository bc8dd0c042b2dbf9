-------------------------------- MODULE Wire --------------------------------
(* The byte layout of everything that travels, and what readers make of      *)
(* bytes.                                                                    *)
(*                                                                           *)
(* An object is a record with a field kind. Numbers of 64 bits are words     *)
(* (module Word64), those of 32 bits are <<low half, high half>>, smaller    *)
(* ones are integers; hashes, commitments, proofs and texts are sequences    *)
(* of bytes.                                                                 *)
EXTENDS Blake2b

Magic == <<84, 52>>
ProtocolVersion == <<1, 0>>
MaxMsgLen == 20000000
MaxLocators == 14
MaxHeaders == 512
MaxAddrs == 256
MaxElements == 1000000
MaxProof == 5134
ProofLen == 675           \* a range proof, serialised
ProofSize == 42

TypeOf == [error |-> 0, hand |-> 1, shake |-> 2, ping |-> 3, pong |-> 4, getaddrs |-> 5, addrs |-> 6, getheaders |-> 7,
           header |-> 8, headers |-> 9, getblock |-> 10, block |-> 11, compact |-> 13, tx |-> 15]

BE4(n) == BE2(n[2]) \o BE2(n[1])
Int4(n) == <<n % 65536, n \div 65536>>
Len8(s) == BE8(WOf(Len(s)))

-----------------------------------------------------------------------------
(* Writing *)

\* the nonces of a proof as one stream of bits, eb bits each, lowest bit first
Bit(n, b) == IF b > 31 THEN 0 ELSE IF b > 15 THEN (n[2] \div 2 ^ (b - 16)) % 2 ELSE (n[1] \div 2 ^ b) % 2
PackedLen(eb) == (ProofSize * eb + 7) \div 8
Pack(eb, nonces) ==
  LET bit(g) == IF g \div eb >= Len(nonces) THEN 0 ELSE Bit(nonces[g \div eb + 1], g % eb)
      byte(i) == LET g == 8 * (i - 1)
                 IN  bit(g) + 2 * bit(g + 1) + 4 * bit(g + 2) + 8 * bit(g + 3) + 16 * bit(g + 4) + 32 * bit(g + 5) + 64 * bit(g + 6) + 128 * bit(g + 7)
  IN  [i \in 1..PackedLen(eb) |-> byte(i)]

EncProof(h) == <<h.eb>> \o Pack(h.eb, h.nonces)
\* what the proof of work commits to
Committed(h) ==
  BE2(h.ver) \o BE8(h.height) \o BE8(h.ts) \o h.prev \o h.prevRoot \o h.utxo \o h.rproof \o h.kern \o h.offset
  \o BE8(h.outMmr) \o BE8(h.kernMmr) \o BE8(h.td) \o BE4(h.scaling) \o BE8(h.nonce)
EncHeader(h) == Committed(h) \o EncProof(h)
BlockHash(h) == Blake2b256(Pack(h.eb, h.nonces))
ProofHash(h) == Blake2b256(EncProof(h))

EncInput(x) == <<x.f>> \o x.commit
OutputHead(x) == <<x.f>> \o x.commit
EncOutput(x) == OutputHead(x) \o Len8(x.proof) \o x.proof
EncKernel(x) == <<x.f>> \o BE8(x.fee) \o BE8(x.lock) \o x.excess \o x.sig

InputHash(x) == Blake2b256(EncInput(x))
OutputHash(x) == Blake2b256(OutputHead(x))
KernelHash(x) == Blake2b256(EncKernel(x))

\* lexicographic order of byte strings of equal length
BytesLess(a, b) ==
  LET d == SelectInSeq([i \in 1..Len(a) |-> a[i] # b[i]], LAMBDA x : x)
  IN  d # 0 /\ a[d] < b[d]
\* pairs of key and content, in the order of their keys
Keyed(l, key(_), enc(_)) == [i \in 1..Len(l) |-> <<key(l[i]), enc(l[i])>>]
InOrder(ps) == LET s == SortSeq(ps, LAMBDA a, b : BytesLess(a[1], b[1])) IN FlattenSeq([i \in 1..Len(s) |-> s[i][2]])
EncInputs(l) == InOrder(Keyed(l, InputHash, EncInput))
EncOutputs(l) == InOrder(Keyed(l, OutputHash, EncOutput))
EncKernels(l) == InOrder(Keyed(l, KernelHash, EncKernel))
EncIds(l) == InOrder([i \in 1..Len(l) |-> <<l[i], l[i]>>])

Mapped(ip) == Len(ip) = 16 /\ SubSeq(ip, 1, 12) = <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255>>
EncAddr(a) == (IF Len(a.ip) = 4 THEN <<0>> \o a.ip ELSE IF Mapped(a.ip) THEN <<0>> \o SubSeq(a.ip, 13, 16) ELSE <<1>> \o a.ip) \o BE2(a.port)
EncText(t) == Len8(t) \o t

Enc(o) ==
  CASE o.kind \in {"ping", "pong"} -> BE8(o.td) \o BE8(o.height)
    [] o.kind = "getaddrs" -> BE4(o.caps)
    [] o.kind = "addrs" -> BE4(Int4(Len(o.addrs))) \o FlattenSeq([i \in DOMAIN o.addrs |-> EncAddr(o.addrs[i])])
    [] o.kind = "getblock" -> o.hash
    [] o.kind \in {"locator", "getheaders"} -> <<Len(o.hashes)>> \o FlattenSeq(o.hashes)
    [] o.kind = "header" -> EncHeader(o.h)
    [] o.kind = "headers" -> BE2(Len(o.hs)) \o FlattenSeq([i \in DOMAIN o.hs |-> EncHeader(o.hs[i])])
    [] o.kind = "block" -> EncHeader(o.h) \o Len8(o.ins) \o Len8(o.outs) \o Len8(o.kers)
                           \o EncInputs(o.ins) \o EncOutputs(o.outs) \o EncKernels(o.kers)
    [] o.kind = "compact" -> EncHeader(o.h) \o <<Len(o.outs), Len(o.kers)>> \o Len8(o.ids)
                             \o EncOutputs(o.outs) \o EncKernels(o.kers) \o EncIds(o.ids)
    [] o.kind = "tx" -> o.offset \o Len8(o.ins) \o Len8(o.outs) \o Len8(o.kers)
                        \o EncInputs(o.ins) \o EncOutputs(o.outs) \o EncKernels(o.kers)
    [] o.kind = "error" -> BE4(o.code) \o EncText(o.msg)
    [] o.kind = "hand" -> BE4(o.version) \o BE4(o.caps) \o BE8(o.nonce) \o BE8(o.td) \o EncAddr(o.sender) \o EncAddr(o.receiver)
                          \o EncText(o.agent) \o o.genesis
    [] o.kind = "shake" -> BE4(o.version) \o BE4(o.caps) \o BE8(o.td) \o EncText(o.agent) \o o.genesis
    [] o.kind = "proof" -> EncProof(o)
    [] o.kind = "input" -> EncInput(o)
    [] o.kind = "output" -> EncOutput(o)
    [] o.kind = "kernel" -> EncKernel(o)

FrameHead(type, len) == Magic \o <<type>> \o BE8(len)
Frame(o) == LET b == Enc(o) IN FrameHead(TypeOf[o.kind], WOf(Len(b))) \o b

-----------------------------------------------------------------------------
(* Reading. A parser takes bytes and the position of the next one, and gives *)
(* the position behind what it read, or 0 to refuse.                         *)

Need(b, p, n) == IF p # 0 /\ n <= Len(b) - p + 1 THEN p + n ELSE 0
\* big-endian numbers; whatever is too big for any limit reads as Huge
Huge == 2000000000
NumAt(b, p, n) == IF (\E i \in 0..(n - 5) : b[p + i] # 0) \/ (n >= 4 /\ b[p + n - 4] > 63) THEN Huge
                  ELSE FoldLeft(LAMBDA s, i : 256 * s + b[p + i], 0, [i \in 1..(IF n < 4 THEN n ELSE 4) |-> n - (IF n < 4 THEN n ELSE 4) + i - 1])

PProof(b, p) == LET q == Need(b, p, 1)
                IN  IF q = 0 THEN 0 ELSE IF b[p] < 1 \/ b[p] > 64 THEN 0 ELSE Need(b, q, PackedLen(b[p]))
PHeader(b, p) == PProof(b, Need(b, p, 246))
PPoint(b, p) == LET q == Need(b, p, 33) IN IF q = 0 THEN 0 ELSE IF b[p] \in {8, 9} THEN q ELSE 0
PInput(b, p) == Need(b, p, 34)
POutput(b, p) ==
  LET c == PPoint(b, Need(b, p, 1))
      q == Need(b, c, 8)
  IN  IF q = 0 THEN 0
      ELSE LET n == NumAt(b, c, 8) IN IF n > MaxProof \/ n < ProofLen THEN 0 ELSE Need(b, q, n)
PKernel(b, p) == Need(b, PPoint(b, Need(b, p, 17)), 64)
PHash(b, p) == Need(b, p, 32)
PId(b, p) == Need(b, p, 6)
PAddr(b, p) == LET q == Need(b, p, 1)
               IN  IF q = 0 THEN 0
                   ELSE IF b[p] = 0 THEN Need(b, q, 6) ELSE IF b[p] = 1 THEN Need(b, q, 18) ELSE 0
PText(b, p) == LET q == Need(b, p, 8)
               IN  IF q = 0 THEN 0 ELSE LET n == NumAt(b, p, 8) IN IF n > MaxMsgLen THEN 0 ELSE Need(b, q, n)

\* where n elements start, with the position behind them at the end; the last is 0 if one is refused
Starts(P(_, _), b, p, n) ==
  IF p = 0 \/ n > Len(b) THEN <<0>>
  ELSE FoldLeft(LAMBDA s, i : IF Last(s) = 0 THEN s ELSE Append(s, P(b, Last(s))), <<p>>, [i \in 1..n |-> i])
PMany(P(_, _), b, p, n) == Last(Starts(P, b, p, n))
\* a count of size bytes, and that many elements, at most max
PCounted(P(_, _), b, p, size, max) ==
  LET q == Need(b, p, size)
  IN  IF q = 0 THEN 0 ELSE IF NumAt(b, p, size) > max THEN 0 ELSE PMany(P, b, q, NumAt(b, p, size))

\* three counts and three lists; with sorted, lists out of order are refused
PBody(b, p, sorted) ==
  LET q == Need(b, p, 24)
  IN  IF q = 0 THEN 0
      ELSE LET n == [i \in 1..3 |-> NumAt(b, p + 8 * (i - 1), 8)]
           IN  IF n[1] > MaxElements \/ n[2] > MaxElements \/ n[3] > MaxElements THEN 0
               ELSE LET is == Starts(PInput, b, q, n[1])
                        os == Starts(POutput, b, Last(is), n[2])
                        ks == Starts(PKernel, b, Last(os), n[3])
                        key(p1, len) == Blake2b256(SubSeq(b, p1, p1 + len - 1))
                        inOrder(s, len) == \A i \in 1..(Len(s) - 2) : ~BytesLess(key(s[i + 1], len), key(s[i], len))
                    IN  IF Last(is) = 0 \/ Last(os) = 0 \/ Last(ks) = 0 THEN 0
                        ELSE IF sorted /\ ~(inOrder(is, 34) /\ inOrder(os, 34) /\ inOrder(ks, 114)) THEN 0
                        ELSE Last(ks)
PCompact(b, p) ==
  LET q == Need(b, p, 10)
  IN  IF q = 0 THEN 0
      ELSE IF NumAt(b, p + 2, 8) > MaxElements THEN 0
      ELSE PMany(PId, b, PMany(PKernel, b, PMany(POutput, b, q, b[p]), b[p + 1]), NumAt(b, p + 2, 8))
PVersion(b, p) == LET q == Need(b, p, 4) IN IF q = 0 THEN 0 ELSE IF SubSeq(b, p, p + 3) = BE4(ProtocolVersion) THEN q ELSE 0

Parse(kind, b) ==
  CASE kind \in {"ping", "pong"} -> Need(b, 1, 16)
    [] kind = "getaddrs" -> Need(b, 1, 4)
    [] kind = "addrs" -> PCounted(PAddr, b, 1, 4, MaxAddrs)
    [] kind = "getblock" -> PHash(b, 1)
    [] kind \in {"locator", "getheaders"} -> PCounted(PHash, b, 1, 1, MaxLocators)
    [] kind = "header" -> PHeader(b, 1)
    [] kind = "headers" -> PCounted(PHeader, b, 1, 2, MaxHeaders)
    [] kind = "block" -> PBody(b, PHeader(b, 1), FALSE)
    [] kind = "compact" -> PCompact(b, PHeader(b, 1))
    [] kind = "tx" -> PBody(b, Need(b, 1, 32), TRUE)
    [] kind = "error" -> PText(b, Need(b, 1, 4))
    [] kind = "hand" -> PHash(b, PText(b, PAddr(b, PAddr(b, Need(b, PVersion(b, 1), 20)))))
    [] kind = "shake" -> PHash(b, PText(b, Need(b, PVersion(b, 1), 12)))
    [] kind = "proof" -> PProof(b, 1)
    [] kind = "input" -> PInput(b, 1)
    [] kind = "output" -> POutput(b, 1)
    [] kind = "kernel" -> PKernel(b, 1)

\* a frame that is to hold a message of that kind
ParseFrame(kind, b) ==
  IF Need(b, 1, 11) = 0 THEN 0
  ELSE IF SubSeq(b, 1, 2) # Magic \/ b[3] # TypeOf[kind] \/ NumAt(b, 4, 8) > MaxMsgLen THEN 0
  ELSE LET n == NumAt(b, 4, 8)
           body == SubSeq(b, 12, IF n > Len(b) - 11 THEN Len(b) ELSE 11 + n)
           p == Parse(kind, body)
       IN  IF p = 0 THEN 0 ELSE 11 + p
=============================================================================
