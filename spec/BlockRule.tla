----------------------------- MODULE BlockRule ------------------------------
(* The validation as the code does it - rule after rule, element after       *)
(* element, leaving at the first failure - decides the rule.                 *)
EXTENDS Block, TLC
CONSTANT MaxLen

Elem == [hash : {<<1>>, <<2>>, <<3>>}, cb : BOOLEAN, ok : BOOLEAN]
Few  == [hash : {<<1>>, <<2>>}, cb : {FALSE}, ok : {TRUE}]
ListsOf(E, n) == UNION {[1..k -> E] : k \in 0..n}

VARIABLES b, pc, i, coinbase
vars == <<b, pc, i, coinbase>>
Init == /\ b \in [hdr : BOOLEAN, ins : ListsOf(Few, 2), outs : ListsOf(Elem, 2), kers : {<<>>} \cup [1..1 -> Elem]]
              \cup [hdr : {TRUE}, ins : {<<>>}, outs : [1..1 -> Few], kers : ListsOf(Elem, MaxLen)]
              \cup [hdr : {TRUE}, ins : ListsOf(Few, 3), outs : [1..1 -> Few], kers : [1..1 -> Few]]
        /\ pc = "header" /\ i = 1 /\ coinbase = 0
Go(ok, next) == pc' = (IF ok THEN next ELSE "refused") /\ i' = 1 /\ coinbase' = 0 /\ b' = b
Each(here, list, next, one(_)) ==
  /\ pc = here
  /\ IF i > Len(list) THEN Go(TRUE, next)
     ELSE LET c == coinbase + (IF list[i].cb THEN 1 ELSE 0)
          IN  IF one(list[i]) /\ c <= MaxCoinbase
              THEN i' = i + 1 /\ coinbase' = c /\ UNCHANGED <<b, pc>>
              ELSE Go(FALSE, "")
Next == \/ pc = "header" /\ Go(b.hdr, "nonempty")
        \/ pc = "nonempty" /\ Go(b.outs # <<>> /\ b.kers # <<>>, "sorted")
        \/ pc = "sorted" /\ Go(Sorted(b.ins) /\ Sorted(b.outs) /\ Sorted(b.kers), "coinbase")
        \/ Each("coinbase", b.outs, "proofs", LAMBDA e : TRUE)
        \/ pc = "proofs" /\ Go(AllOk(b.outs), "kernels")
        \/ Each("kernels", b.kers, "accepted", LAMBDA e : e.ok)
Spec == Init /\ [][Next]_vars
Decides == /\ pc = "accepted" => BlockOk(b)
           /\ pc = "refused" => ~BlockOk(b)
=============================================================================
