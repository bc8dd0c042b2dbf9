----------------------------- MODULE SchnorrGen -----------------------------
(* The alterations of a signature that are tried on the real code.           *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Deep == IOEnv.DEEP = "1"
Op(what, how, n) == [what |-> what, how |-> how, n |-> n]
Ks == IF Deep THEN 0..255 ELSE {0, 1, 7, 8, 31, 100, 127, 128, 200, 254, 255}
Bits64 == 0..63
Ops ==
  {Op("none", "none", 0)}
  \cup {Op(w, "bit", k) : w \in {"s", "r"}, k \in Ks}
  \cup {Op("s", h, 0) : h \in {"neg", "zero", "one", "n-1", "n", "max", "inc", "dec", "double", "half", "random", "other"}}
  \cup {Op("r", h, 0) : h \in {"zero", "one", "p", "max", "inc", "random", "other", "double", "generator", "key"}}
  \cup {Op("sig", h, 0) : h \in {"swap", "reverse", "zero", "max", "other", "shiftNonce", "shiftNonceBack", "endian"}}
  \cup {Op(w, "bit", k) : w \in {"fee", "lock"}, k \in Bits64}
  \cup {Op(w, h, 0) : w \in {"fee", "lock"}, h \in {"zero", "max", "inc", "dec", "neg"}}
  \cup {Op("msg", h, 0) : h \in {"swap", "move", "zero"}}
  \cup {Op("key", h, 0) : h \in {"neg", "double", "other", "generator", "inc", "shift", "shiftBack", "negAll"}}
  \* not through bytes: only the scalar or the point in memory is out of range
  \cup {Op("mem", h, 0) : h \in {"addN", "subN", "add2N", "negS", "negR", "negRS"}}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Ops))
=============================================================================
