--------------------------- MODULE RetargetTrace ----------------------------
(* Judges what the real retarget demanded. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
R == INSTANCE Retarget WITH Window <- 60, MedianOf <- 11, Interval <- 60
Cases == JsonDeserialize(IOEnv.CASES)
Blocks(c) == [i \in 1..Len(c.ts) |-> [ts |-> c.ts[i], diff |-> c.diff[i]]]
\* asked again, in other company, the answer is the same
Ok(c) == c.crash = "" /\ ~c.changed /\ (\A j \in DOMAIN c.later : c.later[j] = c.demand) /\ R!NEq(c.demand, R!Demand(Blocks(c)))
VARIABLES i, done
Init == i \in DOMAIN Cases /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED i
         /\ IF Ok(Cases[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, R!Demand(Blocks(Cases[i]))>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
