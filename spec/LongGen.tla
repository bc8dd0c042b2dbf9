------------------------------- MODULE LongGen ------------------------------
(* Scenarios of nodes that run for a long time, under a clock of their own,  *)
(* with remotes that fail, or serve for a moment, in turns. Written to OUT.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Count == atoi(IOEnv.COUNT)
Windows == atoi(IOEnv.WINDOWS)
Pick(S) == RandomElement(S)
Once(S) == CHOOSE x \in {Pick(S)} : TRUE
List(n, F(_)) == CHOOSE l \in {TLCEval([i \in 1..n |-> F(i)])} : TRUE
Failing == {"drop", "genesis", "leave", "reset"}
\* somebody serves in some windows, most of the time nobody does
Mode(x) == IF Pick(1..5) = 1 THEN "serve" ELSE Pick(Failing)
Modes(i) == IF Pick(1..8) = 1 THEN List(Windows, LAMBDA w : "closed") ELSE List(Windows, LAMBDA w : Mode(w))
Idle == List(Windows, LAMBDA w : Pick(Failing))
Ban(w, a) == [w |-> w, a |-> a]
Scn(modes, known, bans, adds) == [modes |-> modes, known |-> known, bans |-> bans, adds |-> adds]
One(i) ==
  LET n == Pick(1..5)
  IN  CASE i % 4 = 0 -> Scn(List(n, LAMBDA a : Idle), List(n, LAMBDA a : TRUE), <<>>, <<>>)       \* nobody ever serves
        [] i % 4 = 1 -> Scn(<<List(Windows, LAMBDA w : IF w % 3 = 0 THEN "serve" ELSE Pick(Failing))>>, <<TRUE>>, <<>>, <<>>)
        [] i % 4 = 2 -> Scn(List(4, Modes), List(4, LAMBDA a : TRUE), <<Ban(2, Pick(1..2)), Ban(Pick(3..Windows), Pick(3..4))>>, <<>>)
        [] OTHER -> Scn(List(3, Modes) \o <<List(Windows, LAMBDA w : "serve")>>, <<Pick(BOOLEAN), Pick(BOOLEAN), FALSE, FALSE>>, <<>>, <<Ban(Windows - 1, 4), Ban(Pick(2..Windows), 3)>>)
All == [i \in 1..Count |-> CHOOSE s \in {TLCEval(One(i))} : TRUE]
ASSUME JsonSerialize(IOEnv.OUT, All)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
