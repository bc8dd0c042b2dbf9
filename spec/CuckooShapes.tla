---------------------------- MODULE CuckooShapes ----------------------------
(* Writes down the shapes of proofs that the harness has to realise in real  *)
(* graphs: all pairs of vertex labellings of up to four edges, and those of  *)
(* six edges in which no vertex is used once.                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

C == INSTANCE Cuckoo WITH MaxLen <- 6, u <- <<>>, v <- <<>>, at <- 1, cycle <- 0,
                          usedU <- {}, usedV <- {}, pc <- "stop"
Shapes == (UNION {C!Rgs(n) \X C!Rgs(n) : n \in 1..4})
          \cup ({r \in C!Rgs(6) : C!NoSingle(r)} \X {r \in C!Rgs(6) : C!NoSingle(r)})

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Shapes)) /\ PrintT(<<"COUNT", Cardinality(Shapes)>>)
=============================================================================
