---------------------------- MODULE HeaderTrace -----------------------------
(* Judges what the real header validation said. *)
EXTENDS Header, Json, IOUtils, TLC
Record == JsonDeserialize(IOEnv.CASES)

\* asked again, in other company, the answer is the same
Ok(what, c) ==
  /\ what # "versions" => \A j \in DOMAIN c.later : c.later[j] = c.ok
  /\ CASE what = "headers" -> c.crash = "" /\ c.ok = HeaderOk(c.h)
       [] what = "versions" -> c.crash = "" /\ c.ok = VersionOk(c.version, c.height)
       [] what = "lists" -> c.crash = "" /\ c.ok = HeadersOk(c.hs)

VARIABLES what, i, done
Init == what \in {"headers", "versions", "lists"} /\ i \in DOMAIN Record[what] /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED <<what, i>>
         /\ IF Ok(what, Record[what][i]) THEN TRUE ELSE PrintT(<<"REJECT", what, i>>)
Spec == Init /\ [][Judge]_<<what, i, done>>
=============================================================================
