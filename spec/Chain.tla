------------------------------- MODULE Chain --------------------------------
(* The chain: what is stored, what head, height and total difficulty are,    *)
(* and what processing, looking up, asking for headers and auditing answer.  *)
(*                                                                           *)
(* A block is a record                                                       *)
(*   id      names the block (content), 0 is "no block"                      *)
(*   hash    names its proof of work, which is all its hash covers           *)
(*   prev    the hash it names as its parent's                               *)
(*   height, ts (seconds), td, work, diff (words), valid (on its own)        *)
(* A store is [main |-> blocks ascending by height, side |-> other blocks,   *)
(*             sideKnown |-> whether queries for headers know those others:  *)
(*                           nothing follows them].                          *)
EXTENDS Word64, BigNat, FiniteSets

R == INSTANCE Retarget WITH Window <- 60, MedianOf <- 11, Interval <- 60

Stored(s) == {s.main[i] : i \in DOMAIN s.main} \cup {s.side[i] : i \in DOMAIN s.side}
Tip(s, genesis) == IF s.main = <<>> THEN genesis ELSE s.main[Len(s.main)]

-----------------------------------------------------------------------------
(* Processing one block *)
Depth == 71
Parents(s, b) == {p \in Stored(s) : p.hash = b.prev /\ p.height = b.height - 1}

\* blocks of the main chain below height h, newest first, as far back as the retarget looks
Below(s, h) ==
  LET l == SelectSeq(s.main, LAMBDA x : x.height < h /\ x.height >= h - Depth)
  IN  [i \in 1..Len(l) |-> LET x == l[Len(l) + 1 - i] IN [ts |-> x.ts, diff |-> x.diff]]

Fits(s, b, p) ==
  /\ b.ts > p.ts
  /\ b.td = WAdd(p.td, p.work)
  /\ NLeq(R!Demand(Below(s, b.height)), b.diff)

Process(s, genesis, b) ==
  IF ~b.valid THEN "refused"
  ELSE IF b.hash = Tip(s, genesis).hash THEN "ignored"
  ELSE IF Parents(s, b) = {} THEN "ignored"
  ELSE IF \A p \in Parents(s, b) : Fits(s, b, p) THEN "accepted" ELSE "refused"

-----------------------------------------------------------------------------
(* Looking up: hash 0 or height -1 mean "not asked for" *)
Lookup(s, hash, height) ==
  {x.id : x \in {y \in (IF hash = 0 THEN {s.main[i] : i \in DOMAIN s.main} ELSE Stored(s)) :
                   (hash # 0 => y.hash = hash) /\ (height # -1 => y.height = height)}}

(* Headers that follow the first known hash of a locator *)
MaxLocators == 14
MaxHeaders == 512
Headers(s, genesis, loc) ==
  LET cut == SubSeq(loc, 1, IF Len(loc) < MaxLocators THEN Len(loc) ELSE MaxLocators)
      \* index into the main chain, Len(main) for the tip
      at(h) == IF h = Tip(s, genesis).hash THEN Len(s.main)
               ELSE LET k == SelectInSeq(s.main, LAMBDA x : x.hash = h)
                    IN  IF k = 0 /\ s.sideKnown /\ \E x \in Stored(s) : x.hash = h THEN Len(s.main) ELSE k
      known == SelectSeq([i \in DOMAIN cut |-> at(cut[i])], LAMBDA k : k > 0)
      tipFirst == Len(s.main) = 0
  IN  IF tipFirst \/ known = <<>> THEN <<>>
      ELSE LET k == known[1]
               n == IF Len(s.main) - k < MaxHeaders THEN Len(s.main) - k ELSE MaxHeaders
           IN  [i \in 1..n |-> s.main[k + i].id]

-----------------------------------------------------------------------------
(* The audit from the head down to genesis *)
RECURSIVE AuditFrom(_, _, _, _)
AuditFrom(s, genesis, b, fuel) ==
  IF b.hash = genesis.hash THEN TRUE
  ELSE IF ~b.valid \/ fuel = 0 THEN FALSE
  ELSE IF b.prev = genesis.hash THEN TRUE
  ELSE LET ps == {p \in Stored(s) : p.hash = b.prev}
       IN  ps # {} /\ \A p \in ps : AuditFrom(s, genesis, p, fuel - 1)
Audit(s, genesis) == AuditFrom(s, genesis, Tip(s, genesis), Cardinality(Stored(s)) + 1)
=============================================================================
