------------------------------ MODULE BookProps -----------------------------
(* The promises about the book, whatever happens to it.                      *)
EXTENDS Book
CONSTANTS Ones, Groups      \* sizes of the groups
G == <<2>>
G2 == <<2, 1>>
Stats == {"new", "connected", "disconnected", "failed"}
CapSets == SUBSET {0, 1}
VARIABLES b, was
Init == /\ b = [one |-> [a \in Ones |-> Unknown], group |-> [g \in DOMAIN Groups |-> [n |-> 0, lost |-> 0, st |-> "new", caps |-> {}]], banned |-> {}]  /\ was = b
Step(x) == b' = x /\ was' = b
Next == \/ \E a \in Ones : Step(Add(b, a)) \/ Step(Ban(b, a)) \/ (\E st \in Stats, c \in CapSets : Step(Note(b, a, st, c)))
        \/ \E g \in DOMAIN Groups : Step(Fill(b, g, Groups[g])) \/ Step(BanGroup(b, g)) \/ (\E st \in {"new", "failed"} : Step(NoteGroup(b, g, st, {0})))
Spec == Init /\ [][Next]_<<b, was>>
Bounded == Size(b) <= MaxBook
Apart == \A a \in b.banned : ~b.one[a].known
ForGood == was.banned \subseteq b.banned /\ \A g \in DOMAIN Groups : was.group[g].lost <= b.group[g].lost /\ b.group[g].n + b.group[g].lost <= Groups[g]
\* some list can always be given, and none holds what must not be shared
AnyLists == {<<o, c>> \in (SUBSET Ones) \X [DOMAIN Groups -> 0..MaxList] : TRUE}
Always == \A caps \in CapSets : LET ok == {l \in AnyLists : Shareable(b, caps, l[1], l[2])}
                                IN  /\ ok # {}
                                    /\ \A l \in ok : \A a \in l[1] : b.one[a].known /\ b.one[a].st # "failed" /\ a \notin b.banned /\ caps \subseteq b.one[a].caps
\* adding what is known changes nothing
Same == \A a \in Ones : b.one[a].known => Add(b, a) = b
=============================================================================
