---------------------------- MODULE SchnorrTrace ----------------------------
(* Judges recorded verdicts of the real code on signatures.                  *)
(* A record says what was signed (key, fee, lock height, signature) and what *)
(* was asked, as bytes; ok[i] are the verdicts of the ways to ask. Records   *)
(* with full = TRUE are decided by arithmetic on the curve, the others by    *)
(* what the signature was made for (module Schnorr says nothing else passes  *)
(* but with negligible probability).                                         *)
EXTENDS Secp256k1, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.CASES)

\* mem: the ask is not through bytes, and differs from what was signed in memory
Same(o) == ~o.mem /\ o.askKey = o.key /\ o.askFee = o.fee /\ o.askLock = o.lock /\ o.askSig = o.sig
ByArithmetic(o) == Verifies(SubSeq(o.askKey, 1, 32), SubSeq(o.askKey, 33, 64), Message(o.askFee, o.askLock), o.askSig)
Ok(o) == /\ o.crash = ""
         /\ \A i \in DOMAIN o.ok : o.ok[i] = Same(o)
         /\ \A i \in DOMAIN o.later : o.later[i] = Same(o)     \* asked again, in other company
         /\ o.full => ByArithmetic(o) = Same(o)
         /\ o.msg = Message(o.askFee, o.askLock)

VARIABLES i, done
Init == i \in DOMAIN Data /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED i
         /\ IF Ok(Data[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
