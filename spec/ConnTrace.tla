------------------------------ MODULE ConnTrace -----------------------------
(* Judges recorded lives of real connections by what module Conn promises.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Record == JsonDeserialize(IOEnv.CASES)
Bound == 12000     \* ms for everybody to have left after the end

Count(r) == [i \in DOMAIN r.senders |-> Len(r.senders[i])]
Of(r, s) == SelectSeq(r.got, LAMBDA x : x[1] = s)
\* whole, once, in order, and only what was sent
InOrder(r) == /\ r.garbled = ""
              /\ \A i \in DOMAIN r.got : r.got[i][1] \in DOMAIN r.senders
              /\ \A s \in DOMAIN r.senders : LET l == Of(r, s)
                                             IN  Len(l) <= Len(r.senders[s]) /\ \A i \in DOMAIN l : l[i][2] = i
Calm(r) == r.when < 0
Total(r) == LET f[i \in 0..Len(r.senders)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(r.senders[i]) IN f[Len(r.senders)]
Kept(r) == Calm(r) => /\ r.arrived = Total(r) /\ r.pongs = r.flood
                      /\ r.early = <<>>                        \* and nobody was told it is over
Ended(r) == /\ r.returned /\ r.took < Bound /\ r.closers
            /\ r.late = "" /\ r.lateMs < Bound
            /\ r.closed
Ok(r) == r.crash = "" /\ InOrder(r) /\ r.pongs <= r.flood /\ Kept(r) /\ Ended(r)
VARIABLES i, done
Init == i \in DOMAIN Record /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ IF Ok(Record[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
