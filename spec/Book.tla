-------------------------------- MODULE Book --------------------------------
(* The address book: which addresses are known, what is known of them, and   *)
(* which of them may be shared. Single addresses, and groups of addresses    *)
(* that are treated alike, of which a number is known.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxBook, MaxList
Unknown == [known |-> FALSE, st |-> "new", caps |-> {}]
\* b: [one: what is known of every single address, group: of every group [n: known, lost: banned, st, caps], banned]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Size(b) == Cardinality({i \in DOMAIN b.one : b.one[i].known}) + Sum([g \in DOMAIN b.group |-> b.group[g].n])
Room(b) == MaxBook - Size(b)
Least(x, y) == IF x < y THEN x ELSE y

Add(b, a) == IF a \in b.banned \/ b.one[a].known \/ Room(b) = 0 THEN b ELSE [b EXCEPT !.one[a] = [known |-> TRUE, st |-> "new", caps |-> {}]]
Ban(b, a) == IF b.one[a].known THEN [b EXCEPT !.one[a] = Unknown, !.banned = @ \cup {a}] ELSE b
Note(b, a, st, caps) == IF b.one[a].known THEN [b EXCEPT !.one[a] = [known |-> TRUE, st |-> st, caps |-> caps]] ELSE b
\* every address of a group is added, or banned: the known ones go and never come back
Fill(b, g, size) == LET x == b.group[g] IN [b EXCEPT !.group[g].n = Least(size - x.lost, x.n + Room(b))]
NoteGroup(b, g, st, caps) == IF b.group[g].n = 0 THEN b ELSE [b EXCEPT !.group[g].st = st, !.group[g].caps = caps]
BanGroup(b, g) == [b EXCEPT !.group[g] = [n |-> 0, lost |-> @.lost + @.n, st |-> "new", caps |-> {}]]

Fit(x, caps) == x.st \notin {"banned", "failed"} /\ caps \subseteq x.caps
FitOnes(b, caps) == {a \in DOMAIN b.one : b.one[a].known /\ Fit(b.one[a], caps)}
FitIn(b, g, caps) == IF Fit(b.group[g], caps) THEN b.group[g].n ELSE 0
Fits(b, caps) == Cardinality(FitOnes(b, caps)) + Sum([g \in DOMAIN b.group |-> FitIn(b, g, caps)])
\* a list: single addresses in it and how many there are of every group
Shareable(b, caps, ones, counts) ==
  LET total == Cardinality(ones) + Sum(counts)
  IN  /\ ones \subseteq FitOnes(b, caps) /\ \A g \in DOMAIN counts : counts[g] <= FitIn(b, g, caps)
      /\ total <= MaxList
      /\ Fits(b, caps) < MaxList => total = Fits(b, caps)
=============================================================================
