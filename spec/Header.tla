------------------------------- MODULE Header -------------------------------
(* When is a block header acceptable on its own?                             *)
(* A header is a record:                                                     *)
(*   version, height (word), ahead (milliseconds its timestamp is ahead of   *)
(*   the local clock), eb (graph size), scaling (word), n (length of the     *)
(*   proof), cycle (the proof is one simple cycle of the graph which exactly *)
(*   the committed fields define).                                           *)
EXTENDS Word64

V2Height == <<29464, 1, 0, 0>>       \*  95000
V3Height == <<53392, 3, 0, 0>>       \* 250000
V4Height == <<41248, 7, 0, 0>>       \* 500000

VersionOk(version, height) ==
  CASE WLess(height, V2Height) -> version = 1
    [] ~WLess(height, V2Height) /\ WLess(height, V3Height) -> version = 2
    [] ~WLess(height, V3Height) /\ WLess(height, V4Height) -> version = 3
    [] OTHER -> FALSE

MaxAhead == 720000
Secondary == 29
MinPrimary == 30
ProofLen == 42

TimeOk(h) == h.ahead <= MaxAhead
SizeOk(h) == h.eb = Secondary \/ (h.eb >= MinPrimary /\ h.scaling = WOf(1))
PowOk(h) == h.n = ProofLen /\ h.cycle

HeaderOk(h) == VersionOk(h.version, h.height) /\ TimeOk(h) /\ SizeOk(h) /\ PowOk(h)
HeadersOk(s) == \A i \in DOMAIN s : HeaderOk(s[i])

-----------------------------------------------------------------------------
(* What the harness has to try: changes of the committed fields, of the      *)
(* proof, and of what is not committed; and lists of good and bad headers.   *)
Committed == {"version", "height", "timestamp", "previous", "previousRoot", "utxoRoot", "rangeProofRoot",
              "kernelRoot", "kernelOffset", "outputMmrSize", "kernelMmrSize", "totalDifficulty", "scaling", "nonce"}
Changes == {"bit", "inc", "dec", "zero", "max", "high"}
ProofChanges == {"drop", "dropFirst", "append", "swap", "dup", "bump", "bumpLast", "highbit", "reverse", "empty", "ebUp", "ebDown", "eb0", "eb63", "eb64"}
Uncommitted == {"difficulty", "kernelSum", "zone", "nanos"}

Lists == UNION {[1..n -> BOOLEAN] : n \in 0..5}
=============================================================================
