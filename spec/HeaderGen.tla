----------------------------- MODULE HeaderGen ------------------------------
EXTENDS Header, Json, IOUtils, TLC, SequencesExt
Out == [committed |-> SetToSeq(Committed \X Changes), proof |-> SetToSeq(ProofChanges), uncommitted |-> SetToSeq(Uncommitted),
        lists |-> SetToSeq(Lists)]
ASSUME JsonSerialize(IOEnv.OUT, Out)
=============================================================================
