----------------------------- MODULE Handshake ------------------------------
(* The handshake: what has to have arrived for a connection to become that   *)
(* of a peer, and what is then known of the peer. Bytes are those of module  *)
(* Wire.                                                                     *)
EXTENDS Wire, TLC

\* position behind a shake that is good for us at the start of b, or 0
Shaken(b, genesis) ==
  LET p == ParseFrame("shake", b)
  IN  IF p = 0 THEN 0 ELSE IF SubSeq(b, p - 32, p - 1) = genesis THEN p ELSE 0
HandNonce(b) == SubSeq(b, 20, 27)
\* the same for a hand; own are the nonces we send ourselves
Handed(b, genesis, own) ==
  LET p == ParseFrame("hand", b)
  IN  IF p = 0 THEN 0 ELSE IF SubSeq(b, p - 32, p - 1) = genesis /\ HandNonce(b) \notin own THEN p ELSE 0
Good(role, b, genesis, own) == IF role = "out" THEN Shaken(b, genesis) ELSE Handed(b, genesis, own)

Num4(b, p) == <<b[p + 2] * 256 + b[p + 3], b[p] * 256 + b[p + 1]>>
Num8(b, p) == [i \in 1..4 |-> b[p + 8 - 2 * i] * 256 + b[p + 9 - 2 * i]]
\* what a good one tells
Told(role, b, end) ==
  LET agentAt == IF role = "out" THEN 28 ELSE PAddr(b, PAddr(b, 36))
  IN  [version |-> Num4(b, 12), caps |-> Num4(b, 16), td |-> Num8(b, IF role = "out" THEN 20 ELSE 28), agent |-> SubSeq(b, agentAt + 8, end - 33)]
=============================================================================
