-------------------------------- MODULE Pool --------------------------------
(* The pool of peers in the steps it takes: a loop that gets a slot, picks   *)
(* an address, dials it and pauses; somebody who waits for the end of every  *)
(* connection; bans, announcements and the stop at any time; remotes that    *)
(* refuse, answer and leave as they like, but some of them can be relied on. *)
EXTENDS Integers, FiniteSets
CONSTANTS Addrs,
          Max,             \* slots
          Fails, Leaves    \* how often remotes fail and leave
Nobody == "nobody"

VARIABLES book, banned,    \* addresses known, addresses banned
          est,             \* status of the entry of an address
          banning,         \* bans that are not done yet
          slots,           \* slots taken
          run, at,         \* where the loop is, and at which address
          conn,            \* connection to an address: "none", "dial", "open", "shut", "left"
          listed,          \* connected peers table
          stop, fails, leaves
vars == <<book, banned, est, banning, slots, run, at, conn, listed, stop, fails, leaves>>

Init == /\ book = {} /\ banned = {} /\ est = [a \in Addrs |-> "new"] /\ banning = {} /\ slots = 0 /\ run = "slot" /\ at = Nobody
        /\ conn = [a \in Addrs |-> "none"] /\ listed = {} /\ stop = FALSE /\ fails = 0 /\ leaves = 0

Add(a) == /\ a \notin book \cup banned /\ book' = book \cup {a} /\ UNCHANGED <<banned, est, banning, slots, run, at, conn, listed, stop, fails, leaves>>
\* a ban first takes the address out, then waits for the entry and closes
Ban(a) == /\ a \in book /\ book' = book \ {a} /\ banned' = banned \cup {a} /\ banning' = banning \cup {a}
          /\ UNCHANGED <<est, slots, run, at, conn, listed, stop, fails, leaves>>
BanDone(a) == /\ a \in banning /\ conn[a] # "dial" /\ banning' = banning \ {a} /\ est' = [est EXCEPT ![a] = "banned"]
              /\ conn' = [conn EXCEPT ![a] = IF @ = "open" THEN "shut" ELSE @]
              /\ UNCHANGED <<book, banned, slots, run, at, listed, stop, fails, leaves>>
Stop == /\ ~stop /\ stop' = TRUE /\ UNCHANGED <<book, banned, est, banning, slots, run, at, conn, listed, fails, leaves>>

\* the loop
Slot == /\ run = "slot" /\ slots < Max /\ slots' = slots + 1 /\ run' = "look" /\ UNCHANGED <<book, banned, est, banning, at, conn, listed, stop, fails, leaves>>
End == /\ run \in {"slot", "look"} /\ stop /\ run' = "closing" /\ slots' = IF run = "look" THEN slots - 1 ELSE slots
       /\ UNCHANGED <<book, banned, est, banning, at, conn, listed, stop, fails, leaves>>
First == {a \in book : est[a] \in {"new", "disconnected"}}
Second == {a \in book : est[a] = "failed"}
Choice == IF First # {} THEN First ELSE Second
Pick(a) == /\ run = "look" /\ ~stop /\ a \in Choice /\ at' = a /\ run' = "dial"
           /\ UNCHANGED <<book, banned, est, banning, slots, conn, listed, stop, fails, leaves>>
Give == slots' = slots - 1 /\ run' = "pause" /\ at' = Nobody
Idle == /\ run = "look" /\ ~stop /\ Choice = {} /\ Give /\ UNCHANGED <<book, banned, est, banning, conn, listed, stop, fails, leaves>>
Dial == /\ run = "dial" /\ IF at \in book THEN run' = "lock" /\ UNCHANGED <<slots, at>> ELSE Give
        /\ UNCHANGED <<book, banned, est, banning, conn, listed, stop, fails, leaves>>
Lock == /\ run = "lock"
        /\ IF est[at] \in {"banned", "connected"} THEN Give /\ UNCHANGED conn
           ELSE conn' = [conn EXCEPT ![at] = "dial"] /\ run' = "shake" /\ UNCHANGED <<slots, at>>
        /\ UNCHANGED <<book, banned, est, banning, listed, stop, fails, leaves>>
Fail == /\ run = "shake" /\ fails < Fails /\ fails' = fails + 1 /\ conn' = [conn EXCEPT ![at] = "none"] /\ est' = [est EXCEPT ![at] = "failed"] /\ Give
        /\ UNCHANGED <<book, banned, banning, listed, stop, leaves>>
Shake == /\ run = "shake" /\ conn' = [conn EXCEPT ![at] = "open"] /\ est' = [est EXCEPT ![at] = "connected"] /\ listed' = listed \cup {at}
         /\ run' = "pause" /\ at' = Nobody /\ UNCHANGED <<book, banned, banning, slots, stop, fails, leaves>>
Pause == /\ run = "pause" /\ run' = "slot" /\ UNCHANGED <<book, banned, est, banning, slots, at, conn, listed, stop, fails, leaves>>
Closing == /\ run = "closing" /\ run' = "over"
           /\ conn' = [a \in Addrs |-> IF a \in book /\ conn[a] = "open" THEN "shut" ELSE conn[a]]
           /\ est' = [a \in Addrs |-> IF a \in book THEN "disconnected" ELSE est[a]]
           /\ UNCHANGED <<book, banned, banning, slots, at, listed, stop, fails, leaves>>
\* the end of a connection, and who waits for it
Leave(a) == /\ conn[a] = "open" /\ leaves < Leaves /\ leaves' = leaves + 1 /\ conn' = [conn EXCEPT ![a] = "shut"]
            /\ UNCHANGED <<book, banned, est, banning, slots, run, at, listed, stop, fails>>
Unlist(a) == /\ conn[a] = "shut" /\ conn' = [conn EXCEPT ![a] = "left"] /\ listed' = listed \ {a}
             /\ UNCHANGED <<book, banned, est, banning, slots, run, at, stop, fails, leaves>>
Free(a) == /\ conn[a] = "left" /\ conn' = [conn EXCEPT ![a] = "none"] /\ slots' = slots - 1
           /\ est' = [est EXCEPT ![a] = IF @ = "banned" THEN @ ELSE "disconnected"]
           /\ UNCHANGED <<book, banned, banning, run, at, listed, stop, fails, leaves>>

Loop == Slot \/ End \/ Idle \/ Dial \/ Lock \/ Pause \/ Closing
Next == Stop \/ Loop \/ Fail \/ Shake \/ \E a \in Addrs : Add(a) \/ Ban(a) \/ BanDone(a) \/ Pick(a) \/ Leave(a) \/ Unlist(a) \/ Free(a)
\* an attempt ends, one way or the other; the loop goes on; nobody is overlooked for ever
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(Fail \/ Shake)
        /\ \A a \in Addrs : WF_vars(BanDone(a)) /\ WF_vars(Unlist(a)) /\ WF_vars(Free(a)) /\ SF_vars(Pick(a))

\* C17
Live == {a \in Addrs : conn[a] # "none"}
Slots == slots = Cardinality(Live) + (IF run \in {"look", "dial", "lock"} THEN 1 ELSE 0) /\ Cardinality(Live) <= Max
Told == \A a \in Addrs : /\ est[a] = "connected" => conn[a] # "none"
                         /\ conn[a] = "open" => est[a] = "connected" /\ a \in listed
                         /\ a \in listed => conn[a] \in {"open", "shut"}
Reached == Cardinality(Addrs) <= Max => \A a \in Addrs : a \in book ~> (conn[a] = "open" \/ a \notin book \/ stop)
Returned == (slots > 0) ~> (slots < Max \/ \E a \in Addrs : conn[a] = "open")
\* C16
Apart == book \cap banned = {}
ForGood == [][banned \subseteq banned']_vars
NotDialled == [][\A a \in banned \ banning : ~(conn'[a] = "dial" /\ conn[a] = "none")]_vars
CutOff == \A a \in Addrs : (a \in banned) ~> (conn[a] = "none")
\* C22
Stops == stop ~> (run = "over" /\ Live = {})
NoneAfter == [][stop /\ run \notin {"dial", "lock", "shake"} => \A a \in Addrs : ~(conn'[a] = "dial" /\ conn[a] = "none")]_vars
=============================================================================
