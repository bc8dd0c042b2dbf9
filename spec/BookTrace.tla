------------------------------ MODULE BookTrace -----------------------------
(* Judges recorded uses of the real book.                                    *)
EXTENDS Book, TLC, Json, IOUtils
Record == JsonDeserialize(IOEnv.CASES)
Elems(s) == {s[i] : i \in DOMAIN s}

Start(r) == [one |-> [i \in DOMAIN r.ok |-> Unknown], group |-> [g \in DOMAIN r.groups |-> [n |-> 0, lost |-> 0, st |-> "new", caps |-> {}]], banned |-> {}]
\* what was seen of the book after a step
Seen(o) == [i \in DOMAIN o.state |-> [known |-> o.state[i].known, st |-> o.state[i].st, caps |-> Elems(o.state[i].caps)]]
Agrees(b, o) == Seen(o) = b.one /\ o.groups = [g \in DOMAIN b.group |-> b.group[g].n]
\* a full book of groups filled at once: each has some, and there are as many as can be
Raced(r, b, o) == LET all == Sum(r.groups) IN /\ Sum(o.groups) = Least(all, Room(b)) /\ \A g \in DOMAIN o.groups : o.groups[g] <= r.groups[g]
Next1(r, b, o) ==
  CASE o.op = "add" -> IF r.ok[o.a] = "no" \/ (r.ok[o.a] = "any" /\ ~o.state[o.a].known) THEN b ELSE Add(b, o.a)
    [] o.op = "ban" -> Ban(b, o.a)
    [] o.op = "set" -> Note(b, o.a, o.st, Elems(o.caps))
    [] o.op = "fill" -> Fill(b, o.g, r.groups[o.g])
    [] o.op = "setgroup" -> NoteGroup(b, o.g, o.st, Elems(o.caps))
    [] o.op = "bangroup" -> BanGroup(b, o.g)
    [] o.op = "racefill" -> [b EXCEPT !.group = [g \in DOMAIN @ |-> [n |-> o.groups[g], lost |-> 0, st |-> "new", caps |-> {}]]]
    [] o.op = "raceban" -> BanGroup(b, o.g)
    [] OTHER -> b
StepOk(r, b, o) ==
  /\ o.crash = ""
  /\ o.op = "racefill" => Raced(r, b, o)
  /\ Agrees(Next1(r, b, o), o)
  /\ o.op = "peers" => /\ o.dup = <<>> /\ o.foreign = <<>> /\ Cardinality(Elems(o.singles)) = Len(o.singles)
                       /\ Shareable(b, Elems(o.caps), Elems(o.singles), o.counts)
                       /\ o.total = Len(o.singles) + Sum(o.counts)
\* races of bans and additions are only run on groups that are known as a whole
RECURSIVE Bad(_, _, _)
Bad(r, b, k) == IF k > Len(r.steps) THEN 0 ELSE IF ~StepOk(r, b, r.steps[k]) THEN k ELSE Bad(r, TLCEval(Next1(r, b, r.steps[k])), k + 1)

VARIABLES i, done
Init == i \in DOMAIN Record /\ done = FALSE
Judge == ~done /\ done' = TRUE /\ UNCHANGED i /\ LET k == Bad(Record[i], Start(Record[i]), 1) IN IF k = 0 THEN TRUE ELSE PrintT(<<"REJECT", i, k>>)
Spec == Init /\ [][Judge]_<<i, done>>
=============================================================================
