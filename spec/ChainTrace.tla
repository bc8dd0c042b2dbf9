----------------------------- MODULE ChainTrace -----------------------------
(* Judges recorded runs of the real chain against module Chain.              *)
EXTENDS Chain, Json, IOUtils, TLC
Scenarios == JsonDeserialize(IOEnv.CASES)

Store(t) == [main |-> t.main, side |-> t.side, sideKnown |-> t.sideKnown]
Steady(t, o) ==
  LET h == Tip(Store(t), t.genesisBlock)
  IN  /\ o.crash = "" /\ o.same
      /\ o.head = h.id /\ o.headHeight = h.height /\ o.headTd = h.td
      /\ o.genesis = t.genesisBlock.id

\* an accepted block may become the head (the code does not apply blocks yet)
Advanced(t, o) ==
  /\ o.crash = ""
  /\ o.head = o.block.id /\ o.headHeight = o.block.height /\ o.headTd = o.block.td

Ok(t, k) ==
  LET o == t.ops[k]
      s == Store(t)
      g == t.genesisBlock
  IN  CASE o.op \in {"state", "offer"} -> Steady(t, o)
        [] o.op = "process" ->
             LET out == Process(s, g, o.block)
             IN  /\ o.ok = (out # "refused")
                 /\ Steady(t, o) \/ (out = "accepted" /\ Advanced(t, o))
        [] o.op = "lookup" ->
             LET found == Lookup(s, o.hash, o.height)
             IN  Steady(t, o) /\ IF found = {} THEN o.res = 0 ELSE o.res \in found
        [] o.op = "headers" -> Steady(t, o) /\ o.res = Headers(s, g, o.loc)
        [] o.op = "audit" -> Steady(t, o) /\ o.ok = Audit(s, g)

VARIABLES t, k, done
Init == t \in DOMAIN Scenarios /\ k \in DOMAIN Scenarios[t].ops /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, k>>
         /\ IF Ok(Scenarios[t], k) THEN TRUE ELSE PrintT(<<"REJECT", t, k>>)
Spec == Init /\ [][Judge]_<<t, k, done>>
=============================================================================
