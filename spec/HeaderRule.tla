----------------------------- MODULE HeaderRule -----------------------------
(* The check as the code makes it, rule by rule with an early exit, decides  *)
(* the rule for every class of header.                                       *)
EXTENDS Header, TLC

W(n) == WOf(n)
Heights == {W(0), W(94999), W(95000), W(95001), W(249999), W(250000), W(250001), W(499999), W(500000),
            W(2000000000), <<0, 0, 1, 0>>, <<29463, 1, 1, 0>>, <<65535, 65535, 65535, 65535>>}
All == [version : {0, 1, 2, 3, 4, 257, 65535}, height : Heights, ahead : {-1000, 0, 719999, 720000, 720001, 2000000000},
        eb : {0, 19, 28, 29, 30, 31, 64}, scaling : {W(0), W(1), W(2), <<1, 1, 0, 0>>}, n : {41, 42}, cycle : BOOLEAN]

VARIABLES h, pc
Init == h \in All /\ pc = "version"
Go(ok, next) == pc' = (IF ok THEN next ELSE "refused") /\ UNCHANGED h
Next == \/ pc = "version" /\ Go(VersionOk(h.version, h.height), "time")
        \/ pc = "time" /\ Go(h.ahead <= MaxAhead, "size")
        \/ pc = "size" /\ Go(~(h.eb # Secondary /\ h.eb < MinPrimary), "scaling")
        \/ pc = "scaling" /\ Go(~(h.eb # Secondary /\ h.scaling # W(1)), "length")
        \/ pc = "length" /\ Go(h.n = ProofLen, "cycle")
        \/ pc = "cycle" /\ Go(h.cycle, "accepted")
Spec == Init /\ [][Next]_<<h, pc>>
Decides == /\ pc = "accepted" => HeaderOk(h)
           /\ pc = "refused" => ~HeaderOk(h)
\* each height admits at most one version
OneVersion == \A v \in 0..5, w \in 0..5 : VersionOk(v, h.height) /\ VersionOk(w, h.height) => v = w
=============================================================================
