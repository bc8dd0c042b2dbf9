-------------------------------- MODULE Node --------------------------------
(* What the node makes of a message of one of its peers.                     *)
(*                                                                           *)
(* A node is a record                                                        *)
(*   peers   what it knows of every address: st is "none" (not in the book), *)
(*           "new", "connected", "disconnected" or "failed"; open tells      *)
(*           whether a connection lasts; h, td are the height and total      *)
(*           difficulty it last learned, caps the capabilities               *)
(*   chain   height and total difficulty of its chain                        *)
(*   blocks  ids of the blocks it can serve                                  *)
(*   txs     whether it keeps a transaction pool                             *)
(* A message is a record with a kind k. The chain's verdict on its content   *)
(* is its field ok: FALSE if the rules refuse it.                            *)
EXTENDS Word64, FiniteSets, SequencesExt

Online(n) == {p \in DOMAIN n.peers : n.peers[p].open}
Drop(n, p) == [n EXCEPT !.peers[p].open = FALSE, !.peers[p].st = "disconnected"]
Ban(n, p) == [n EXCEPT !.peers[p].open = FALSE, !.peers[p].st = "none"]
Told(n, p, h, td) == [n EXCEPT !.peers[p].h = h, !.peers[p].td = td]
\* connected once more: all there is to know is what its handshake said
Back(n, p, td) == [n EXCEPT !.peers[p].open = TRUE, !.peers[p].st = "connected", !.peers[p].h = W0, !.peers[p].td = td]
Lacks(e, b) == WLess(e.h, b.h) \/ WLess(e.td, b.td)
Raised(n, p, b) == IF Lacks(n.peers[p], b) THEN Told(n, p, b.h, b.td) ELSE n

\* who hears of an accepted block at the height of the chain
Hears(n, p, b) == IF b.h = n.chain.h THEN {q \in Online(n) : Lacks(Raised(n, p, b).peers[q], b)} ELSE {}

\* capabilities are sets of bit numbers here
Shareable(n, caps) == {p \in DOMAIN n.peers : n.peers[p].st \in {"new", "connected", "disconnected"} /\ caps \subseteq n.peers[p].caps}

\* kinds that a node takes no notice of on the connection
Silent == {"pong", "addrs", "header", "compact", "getcompact"}
\* what ends the connection: bad magic code, length, type or body
Broken == {"magic", "long", "type", "malformed"}
\* messages the rules pass a verdict on, a refusal being an offence
Judged == {"block", "headers", "tx"}
Offence(n, f) == f.k \in Judged /\ ~f.ok /\ (f.k = "tx" => n.txs)

After(n, p, f) ==
  CASE f.k \in {"ping", "pong"} -> Told(n, p, f.h, f.td)
    [] f.k \in Broken \cup {"close"} -> Drop(n, p)
    [] Offence(n, f) -> Ban(n, p)
    [] f.k = "block" /\ f.ok -> Raised(n, p, f)
    [] OTHER -> n

\* answers to the sender, in this order
Answer(n, p, f) ==
  CASE f.k = "ping" -> <<[k |-> "pong", h |-> n.chain.h, td |-> n.chain.td]>>
    [] f.k = "getaddrs" -> <<[k |-> "addrs", peers |-> Shareable(n, f.caps)]>>
    [] f.k = "getheaders" -> <<[k |-> "headers", loc |-> f.loc]>>
    [] f.k = "getblock" -> IF f.id \in n.blocks THEN <<[k |-> "block", id |-> f.id]>> ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
