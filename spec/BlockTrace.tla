----------------------------- MODULE BlockTrace -----------------------------
EXTENDS Block, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done
Init == i \in DOMAIN Cases /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED i
         /\ IF Cases[i].crash = "" /\ (\A j \in DOMAIN Cases[i].later : Cases[i].later[j] = Cases[i].ok) /\ Cases[i].ok = BlockOk(Cases[i].b) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
