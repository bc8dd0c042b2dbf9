------------------------------- MODULE Block --------------------------------
(* When is a block acceptable on its own?                                    *)
(* A block: hdr (its header is acceptable), and three lists of elements      *)
(*   [hash |-> bytes, cb |-> BOOLEAN, ok |-> BOOLEAN]                        *)
(* hash: of the serialised element (an output's without its proof);          *)
(* cb: carries the coinbase flag; ok: its proof or signature is valid.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* lexicographic order of byte strings of equal length
BytesLeq(a, b) ==
  LET d == SelectInSeq([i \in 1..Len(a) |-> a[i] # b[i]], LAMBDA x : x)
  IN  IF d = 0 THEN TRUE ELSE a[d] < b[d]

Sorted(l) == \A i \in 1..(Len(l) - 1) : BytesLeq(l[i].hash, l[i + 1].hash)
Coinbases(l) == Cardinality({i \in DOMAIN l : l[i].cb})
AllOk(l) == \A i \in DOMAIN l : l[i].ok

MaxCoinbase == 1

BlockOk(b) ==
  /\ b.hdr
  /\ Len(b.outs) >= 1 /\ Len(b.kers) >= 1
  /\ Sorted(b.ins) /\ Sorted(b.outs) /\ Sorted(b.kers)
  /\ Coinbases(b.outs) <= MaxCoinbase /\ Coinbases(b.kers) <= MaxCoinbase
  /\ AllOk(b.outs) /\ AllOk(b.kers)
=============================================================================
