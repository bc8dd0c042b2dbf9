-------------------------------- MODULE Conn --------------------------------
(* A connection to a peer in the steps it takes: senders that hand messages  *)
(* over one at a time, a writer, a reader that also answers, anybody who     *)
(* closes it, and a remote side that reads, stalls, says something or goes   *)
(* away. Messages go over the wire in two halves.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senders, Closers, Count, Room      \* Count messages each; Room halves fit on the wire
Reader == "reader"
Writer == "writer"
Callers == Senders \cup {Reader}             \* who hands messages over
Ending == {Reader, Writer} \cup Closers      \* who disconnects

VARIABLES sent,     \* messages handed over, by caller
          call,     \* what a caller is doing: "idle", "offer", "left"
          hand,     \* the message the writer holds, with the halves still to write
          wr, rd,   \* writer and reader: "run", "gone"
          asks,     \* requests of the remote the reader has not seen
          wire, got, remote,
          flag, quit, open,      \* the three steps of the end
          end,      \* who is in the middle of ending it, and where
          waiting   \* somebody waits for the end
vars == <<sent, call, hand, wr, rd, asks, wire, got, remote, flag, quit, open, end, waiting>>

Init == /\ sent = [c \in Callers |-> 0] /\ call = [c \in Callers |-> "idle"] /\ hand = <<>> /\ wr = "run" /\ rd = "run"
        /\ asks = 0 /\ wire = <<>> /\ got = <<>> /\ remote = "reads" /\ flag = FALSE /\ quit = FALSE /\ open = TRUE
        /\ end = [e \in Ending |-> "no"] /\ waiting = TRUE

Offer(s) == /\ s \in Senders /\ call[s] = "idle" /\ sent[s] < Count
            /\ call' = [call EXCEPT ![s] = "offer"]
            /\ UNCHANGED <<sent, hand, wr, rd, asks, wire, got, remote, flag, quit, open, end, waiting>>
\* the reader answers a request
Request == /\ rd = "run" /\ call[Reader] = "idle" /\ asks > 0 /\ ~flag /\ asks' = asks - 1 /\ call' = [call EXCEPT ![Reader] = "offer"]
           /\ UNCHANGED <<sent, hand, wr, rd, wire, got, remote, flag, quit, open, end, waiting>>
\* the writer takes it
Take(c) == /\ call[c] = "offer" /\ wr = "run" /\ hand = <<>> /\ end[Writer] = "no"
           /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ call' = [call EXCEPT ![c] = "idle"]
           /\ hand' = <<<<c, sent[c] + 1, 1>>, <<c, sent[c] + 1, 2>>>>
           /\ UNCHANGED <<wr, rd, asks, wire, got, remote, flag, quit, open, end, waiting>>
\* or nobody ever will
Leave(c) == /\ call[c] = "offer" /\ quit /\ call' = [call EXCEPT ![c] = IF c = Reader THEN "idle" ELSE "left"]
            /\ UNCHANGED <<sent, hand, wr, rd, asks, wire, got, remote, flag, quit, open, end, waiting>>
Begin(e) == end' = [end EXCEPT ![e] = "begin"]
Write == /\ wr = "run" /\ hand # <<>>
         /\ IF Len(hand) = 2 /\ flag THEN wr' = "gone" /\ Begin(Writer) /\ UNCHANGED <<wire, hand>>      \* it is over: nothing new
            ELSE IF ~open \/ remote = "gone" THEN wr' = "gone" /\ Begin(Writer) /\ UNCHANGED <<wire, hand>>
            ELSE Len(wire) < Room /\ wire' = Append(wire, Head(hand)) /\ hand' = Tail(hand) /\ UNCHANGED <<wr, end>>
         /\ UNCHANGED <<sent, call, rd, asks, got, remote, flag, quit, open, waiting>>
WriterQuits == /\ wr = "run" /\ hand = <<>> /\ quit /\ wr' = "gone" /\ Begin(Writer)
               /\ UNCHANGED <<sent, call, hand, rd, asks, wire, got, remote, flag, quit, open, waiting>>
ReaderQuits == /\ rd = "run" /\ call[Reader] = "idle" /\ (flag \/ ~open \/ remote \in {"gone", "mad"}) /\ rd' = "gone" /\ Begin(Reader)
               /\ UNCHANGED <<sent, call, hand, wr, asks, wire, got, remote, flag, quit, open, waiting>>
Close(e) == /\ e \in Closers /\ end[e] = "no" /\ Begin(e)
            /\ UNCHANGED <<sent, call, hand, wr, rd, asks, wire, got, remote, flag, quit, open, waiting>>
\* disconnecting: the first one does it, in three steps
Step(e) ==
  /\ CASE end[e] = "begin" -> IF flag THEN end' = [end EXCEPT ![e] = "done"] /\ UNCHANGED <<flag, quit, open>>
                              ELSE flag' = TRUE /\ end' = [end EXCEPT ![e] = "quit"] /\ UNCHANGED <<quit, open>>
       [] end[e] = "quit" -> quit' = TRUE /\ end' = [end EXCEPT ![e] = "shut"] /\ UNCHANGED <<flag, open>>
       [] end[e] = "shut" -> open' = FALSE /\ end' = [end EXCEPT ![e] = "done"] /\ UNCHANGED <<flag, quit>>
       [] OTHER -> FALSE
  /\ UNCHANGED <<sent, call, hand, wr, rd, asks, wire, got, remote, waiting>>
Return == /\ waiting /\ quit /\ wr = "gone" /\ rd = "gone" /\ waiting' = FALSE
          /\ UNCHANGED <<sent, call, hand, wr, rd, asks, wire, got, remote, flag, quit, open, end>>
\* the remote
Receive == /\ remote # "gone" /\ wire # <<>> /\ got' = Append(got, Head(wire)) /\ wire' = Tail(wire)
           /\ UNCHANGED <<sent, call, hand, wr, rd, asks, remote, flag, quit, open, end, waiting>>
Remote == /\ remote # "gone"
          /\ \/ remote' \in {"gone", "mad"} \ {remote} /\ UNCHANGED asks
             \/ asks = 0 /\ remote = "reads" /\ sent[Reader] < Count /\ asks' = 1 /\ UNCHANGED remote
          /\ UNCHANGED <<sent, call, hand, wr, rd, wire, got, flag, quit, open, end, waiting>>

Next == \/ \E c \in Callers : Offer(c) \/ Take(c) \/ Leave(c)
        \/ Request \/ Write \/ WriterQuits \/ ReaderQuits \/ Return \/ Receive \/ Remote
        \/ \E e \in Ending : Close(e) \/ Step(e)
\* nothing is owed by the remote, nor by senders and closers that have not begun
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Request) /\ WF_vars(Write) /\ WF_vars(WriterQuits) /\ WF_vars(ReaderQuits) /\ WF_vars(Return)
        /\ \A c \in Callers : WF_vars(Leave(c)) /\ WF_vars(Take(c))
        /\ \A e \in Ending : WF_vars(Step(e))

\* every message whole, but for the last one of a connection that is gone
Whole == \A i \in DOMAIN got : IF got[i][3] = 1 THEN i = Len(got) \/ got[i + 1] = <<got[i][1], got[i][2], 2>>
                               ELSE i > 1 /\ got[i - 1] = <<got[i][1], got[i][2], 1>>
InOrder == \A c \in Callers : LET m == SelectSeq(got, LAMBDA x : x[1] = c /\ x[3] = 2) IN \A i \in DOMAIN m : m[i][2] = i
\* nothing is lost while it lasts
Kept == open /\ wr = "run" => \A c \in Callers : sent[c] = Cardinality({i \in DOMAIN got : got[i][1] = c /\ got[i][3] = 2})
                                                      + Cardinality({i \in DOMAIN wire : wire[i][1] = c /\ wire[i][3] = 2})
                                                      + Cardinality({i \in DOMAIN hand : hand[i][1] = c /\ hand[i][3] = 2})
Ended == flag ~> (~waiting /\ ~open)
Freed == \A c \in Callers : (flag /\ call[c] = "offer") ~> call[c] # "offer"
LostEnds == (remote = "gone") ~> ~waiting
=============================================================================
