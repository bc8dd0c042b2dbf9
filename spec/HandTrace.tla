------------------------------ MODULE HandTrace -----------------------------
(* Judges recorded handshakes of the real code.                              *)
EXTENDS Handshake, Json, IOUtils
Record == JsonDeserialize(IOEnv.CASES)
List == Record.list
Genesis == BlockHash(Record.header)
Bound == 25000                     \* ms: an attempt has come to an end
Prompt == 3000                     \* ms: whoever is that fast is in time

Elems(s) == {s[i] : i \in DOMAIN s}
\* when the first k bytes had been delivered
Delivered(r, k) == LET i == CHOOSE i \in 1..(Len(r.at) \div 2) : r.at[2 * i - 1] >= k /\ (i = 1 \/ r.at[2 * i - 3] < k) IN r.at[2 * i]

\* what we may have said: our hand, or our shake as the answer to a good hand, and nothing else
SaidHand(b) == LET p == ParseFrame("hand", b) IN p = Len(b) + 1 /\ SubSeq(b, p - 32, p - 1) = Genesis
SaidShake(b) == LET p == ParseFrame("shake", b) IN p = Len(b) + 1 /\ SubSeq(b, p - 32, p - 1) = Genesis
Said(r) ==
  IF r.role = "out" THEN SaidHand(r.got) \/ (r.got = <<>> /\ r.end \in {"close", "reset"})
  ELSE IF r.ok THEN SaidShake(r.got) \/ (r.got = <<>> /\ r.end \in {"close", "reset"}) ELSE r.got = <<>>

PongOf(b) == b = Frame([kind |-> "pong", td |-> WOf(4242), height |-> WOf(77)])
Ok(r) ==
  IF r.role = "self" THEN r.crash = "" /\ ~r.inOk /\ ~r.outOk /\ r.ms < Bound
  ELSE LET g == Good(r.role, r.sent, Genesis, Elems(r.own))
       IN  /\ r.crash = "" /\ r.ms < Bound
           /\ Said(r)
           /\ r.ok => g # 0
           /\ g # 0 /\ r.end \in {"silent", "closewrite"} /\ Delivered(r, g - 1) < Prompt => r.ok
           /\ ~r.ok => r.err # "" /\ (r.role = "out" => r.closed)
           /\ r.ok /\ g # 0 => LET t == Told(r.role, r.sent, g)
                               IN  /\ r.info.version = t.version /\ r.info.caps = t.caps /\ r.info.td = t.td /\ r.info.agent = t.agent
           /\ r.ok /\ r.follow => PongOf(r.pong)

\* no matter of time
Wrong(r) == IF r.role = "self" THEN r.inOk \/ r.outOk ELSE r.ok /\ Good(r.role, r.sent, Genesis, Elems(r.own)) = 0

VARIABLES i, done
Init == i \in DOMAIN List /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ IF Ok(List[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, IF Wrong(List[i]) THEN "wrong" ELSE "late">>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
