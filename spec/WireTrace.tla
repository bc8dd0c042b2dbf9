----------------------------- MODULE WireTrace ------------------------------
(* Judges what real code wrote and read against module Wire.                 *)
EXTENDS Wire, BigNat, Json, IOUtils, TLC
LOCAL Sip == INSTANCE SipHash
Record == JsonDeserialize(IOEnv.CASES)

-----------------------------------------------------------------------------
(* What reading an object back has to give: its lists come sorted            *)
Sorted(l, key(_)) == LET s == SortSeq(TLCEval([i \in 1..Len(l) |-> <<key(l[i]), l[i]>>]), LAMBDA a, b : BytesLess(a[1], b[1])) IN TLCEval([i \in 1..Len(s) |-> s[i][2]])
Self(x) == x
Canonical(o) ==
  CASE o.kind \in {"block", "tx"} -> [o EXCEPT !.ins = Sorted(@, InputHash), !.outs = Sorted(@, OutputHash), !.kers = Sorted(@, KernelHash)]
    [] o.kind = "compact" -> [o EXCEPT !.outs = Sorted(@, OutputHash), !.kers = Sorted(@, KernelHash), !.ids = Sorted(@, Self)]
    [] OTHER -> o

\* the work a proof stands for: the greatest target divided by the proof's hash
MaxTarget == <<65535, 65535, 65535, 4095>>
IsWork(w, hash) ==
  LET x == [i \in 1..4 |-> hash[9 - 2 * i] * 256 + hash[10 - 2 * i]]
  IN  NLeq(NTimes(x, w), MaxTarget) /\ NLess(MaxTarget, NTimes(x, NAdd(w, <<1>>)))

HashesOk(r) ==
  LET h == r.hashes
      o == r.obj
  IN  /\ "block" \in DOMAIN h => h.block = BlockHash(o.h)
      /\ "proof" \in DOMAIN h => h.proof = ProofHash(o.h) /\ IsWork(h.work, ProofHash(o.h))
      /\ "elem" \in DOMAIN h => h.elem = CASE o.kind = "input" -> InputHash(o) [] o.kind = "output" -> OutputHash(o) [] o.kind = "kernel" -> KernelHash(o)

Alike(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : a[f] = b[f]
ObjectOk(r) ==
  LET canon == TLCEval(Canonical(r.obj))
  IN  /\ r.crash = ""
      /\ r.bytes = Enc(r.obj) /\ r.again
      /\ \A j \in DOMAIN r.later : r.later[j] = r.sum    \* read and written again, in other company
      /\ r.head # <<>> => r.head = FrameHead(TypeOf[r.kind], WOf(Len(r.bytes))) /\ r.body /\ r.written = 11 + Len(r.bytes)
      /\ r.kind \in DOMAIN TypeOf => r.head # <<>>
      /\ HashesOk(r)
      /\ \A i \in DOMAIN r.back : LET b == r.back[i] IN b.ok /\ b.crash = "" /\ b.used = Len(r.bytes) /\ Alike(b.obj, canon)
      /\ r.prefixes = <<>>

\* addresses come in any order
RECURSIVE Chunks(_, _)
Chunks(b, p) == IF p > Len(b) THEN <<>> ELSE LET q == PAddr(b, p) IN IF q = 0 THEN <<<<>>>> ELSE <<SubSeq(b, p, q - 1)>> \o Chunks(b, q)
AddrsOk(r) ==
  LET got == Chunks(r.bytes, 5)
  IN  /\ r.crash = "" /\ r.ok /\ r.again /\ r.used = Len(r.bytes) /\ r.prefixes = <<>>
      /\ SubSeq(r.bytes, 1, 4) = BE4(Int4(Len(r.addrs)))
      /\ Len(got) = Len(r.addrs)
      /\ ToSet(got) = {EncAddr(r.addrs[i]) : i \in DOMAIN r.addrs}

InfoOk(r) ==
  /\ r.crash = "" /\ r.ok
  /\ r.sent = Enc(r.obj)                 \* the harness speaks as the specification does
  /\ r.info.version = r.obj.version /\ r.info.caps = r.obj.caps /\ r.info.td = r.obj.td /\ r.info.agent = r.obj.agent
HandOk(r) ==
  /\ InfoOk(r)
  /\ r.answerErr = "<nil>" /\ r.answerType = TypeOf.shake
  /\ r.answerObj.kind = "shake"
  /\ r.answer = Enc(r.answerObj)
  /\ r.answerObj.version = ProtocolVersion /\ r.answerObj.genesis = BlockHash(r.genesisHeader) /\ Len(r.answerObj.agent) > 0
ShakeOk(r) ==
  /\ InfoOk(r)
  /\ r.handType = TypeOf.hand
  /\ r.handObj.kind = "hand"
  /\ r.hand = Enc(r.handObj)
  /\ r.handObj.version = ProtocolVersion /\ r.handObj.genesis = BlockHash(r.genesisHeader) /\ Len(r.handObj.agent) > 0
  /\ r.handObj.receiver = r.remote

BytesOk(r) ==
  LET p == IF r.frame THEN ParseFrame(r.kind, r.bytes) ELSE Parse(r.kind, r.bytes)
  IN  \A i \in DOMAIN r.results :
        LET x == r.results[i] IN x.crash = "" /\ x.ok = (p # 0) /\ (x.ok => x.used = p - 1) /\ x.alloc <= 512

Slack == 65536
StreamOk(r) ==
  /\ r.crash = ""
  /\ r.ok = (r.declared <= r.max /\ r.supply >= r.declared)
  /\ r.ok => r.used = r.pre + r.unit * r.declared
  \* who gives up before the data ends would refuse what goes on well, too
  /\ (r.declared <= r.max /\ r.supply < r.declared) => r.used = r.pre + r.unit * r.supply
  /\ r.declared > r.max => r.used <= r.pre + Slack /\ r.alloc <= 512
  /\ r.declared <= r.max => r.alloc <= IF r.supply < r.declared THEN 1024 ELSE 4096

CanonOk(r) == r.crash = "" /\ r.forms = 1 /\ r.bytes = Enc(r.obj) /\ r.accepted

LEWord(b, o) == [i \in 1..4 |-> b[o + 2 * i - 2] + 256 * b[o + 2 * i - 1]]
ShortOk(r) ==
  LET d == Sip!SipHashBytes(LEWord(r.block, 1), LEWord(r.block, 9), r.hash)
  IN  r.crash = "" /\ (\A j \in DOMAIN r.later : r.later[j] = r.id) /\ r.id = <<d[1] % 256, d[1] \div 256, d[2] % 256, d[2] \div 256, d[3] % 256, d[3] \div 256>>

Ok(r) ==
  CASE r.op = "object" -> ObjectOk(r)
    [] r.op = "addrs" -> AddrsOk(r)
    [] r.op = "hand" -> HandOk(r)
    [] r.op = "shake" -> ShakeOk(r)
    [] r.op = "send" -> r.crash = "" /\ r.frame = Frame(r.obj)
    [] r.op = "bytes" -> BytesOk(r)
    [] r.op = "stream" -> StreamOk(r)
    [] r.op = "canon" -> CanonOk(r)
    [] r.op = "shortid" -> ShortOk(r)

VARIABLES i, done
Init == i \in DOMAIN Record /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ IF Ok(Record[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
