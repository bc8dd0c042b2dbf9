---------------------------- MODULE CuckooTrace -----------------------------
(* Judges what the real verifiers and edge generators did.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

S == INSTANCE SipHash
C == INSTANCE Cuckoo WITH MaxLen <- 6, u <- <<>>, v <- <<>>, at <- 1, cycle <- 0,
                          usedU <- {}, usedV <- {}, pc <- "stop"
Record == JsonDeserialize(IOEnv.CASES)
Cases == Record.cases
Edges == Record.edges

\* asked again, in other company, the answer is the same
CaseOk(c) == c.crash = "" /\ (\A j \in DOMAIN c.later : c.later[j] = c.ok) /\ c.ok = C!ProofOk(c.nonces, c.limit, c.u, c.v)

EdgeOf(e) ==
  IF e.kind = "roo"
  THEN LET h == S!SipHashBlock(e.key, e.nonce)
       IN  <<S!WAnd(h, e.mask), S!WAnd(S!WRotl(h, 32), e.mask)>>
  ELSE LET twice == S!WAdd(e.nonce, e.nonce)
           a == S!WAnd(S!SipHash24(e.key, twice), e.mask)
           b == S!WAnd(S!SipHash24(e.key, S!WAdd(twice, S!WOf(1))), e.mask)
       IN  <<S!WAdd(a, a), S!WAdd(S!WAdd(b, b), S!WOf(1))>>
EdgeOk(e) == <<e.u, e.v>> = EdgeOf(e) /\ \A j \in DOMAIN e.later : e.later[j] = <<e.u, e.v>>
\* the harness labels proofs with edges of its own; it must agree with the specification
RefOk(e) == <<e.ru, e.rv>> = EdgeOf(e)

VARIABLES i, what, verdict
Init == /\ \/ what = "case" /\ i \in DOMAIN Cases
           \/ what = "edge" /\ i \in DOMAIN Edges
        /\ verdict = "open"
Judge == /\ verdict = "open"
         /\ verdict' = IF what = "case" THEN IF CaseOk(Cases[i]) THEN "ok" ELSE "bad"
                       ELSE IF ~RefOk(Edges[i]) THEN "harness"
                       ELSE IF EdgeOk(Edges[i]) THEN "ok" ELSE "bad"
         /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", what, i, verdict'>>)
         /\ UNCHANGED <<i, what>>
Spec == Init /\ [][Judge]_<<i, what, verdict>>
=============================================================================
