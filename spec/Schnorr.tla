------------------------------ MODULE Schnorr -------------------------------
(* Kernel signatures over a toy group: integers modulo a prime Q, a point    *)
(* named by its discrete logarithm. Two points share an x coordinate when    *)
(* they are negatives, and one of each pair has a square y.                  *)
(*                                                                           *)
(* A signer signs, the signature is written to bytes and read back, an       *)
(* adversary alters what it likes, a verifier decides step by step as the    *)
(* code does. The challenge is a random oracle: whoever asks for a new       *)
(* input gets any value.                                                     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Q,         \* order of the group
          Room       \* scalars are written to a field that holds 0..Q-1+Room

Keys == 1..(Q - 1)
Neg(k) == (Q - k) % Q
XOf(k) == IF k <= Neg(k) THEN k ELSE Neg(k)            \* x coordinate of point k
\* which point of a pair is the square one does not matter: take every third the other way
Square(k) == IF XOf(k) % 3 = 0 THEN k # XOf(k) ELSE k = XOf(k)
Lift(x) == IF Square(x) THEN x ELSE Neg(x)             \* what a reader takes x for
Msgs == {"m", "n"}

VARIABLES step, key, msg, sig, read, oracle, ask
vars == <<step, key, msg, sig, read, oracle, ask>>
None == [x |-> 0, s |-> 0]

\* oracle: a partial function, as a set of <<input, value>>
Known(i) == \E r \in oracle : r[1] = i
Value(i) == (CHOOSE r \in oracle : r[1] = i)[2]
Input(x, p, m) == <<x, p, m>>

Init == /\ step = "start" /\ key \in Keys /\ msg = "m" /\ sig = None /\ read = None /\ oracle = {} /\ ask = <<>>
Sign == /\ step = "start"
        /\ \E k0 \in Keys, e \in 0..(Q - 1) :
             LET k == IF Square(k0) THEN k0 ELSE Neg(k0)
             IN  /\ oracle' = {<<Input(XOf(k), key, msg), e>>}
                 /\ sig' = [x |-> XOf(k), s |-> (k + e * key) % Q]
        /\ step' = "signed" /\ UNCHANGED <<key, msg, read, ask>>
\* the adversary writes any bytes, for any key and message
Alter == /\ step = "signed"
         /\ \E x \in {XOf(k) : k \in Keys}, s \in 0..(Q - 1 + Room), p \in Keys, m \in Msgs :
              read' = [x |-> x, s |-> s] /\ ask' = <<p, m>>
         /\ step' = "read" /\ UNCHANGED <<key, msg, sig, oracle>>
Query == /\ step = "read"
         /\ LET i == Input(read.x, ask[1], ask[2])
            IN  IF Known(i) THEN UNCHANGED oracle
                ELSE \E e \in 0..(Q - 1) : oracle' = oracle \cup {<<i, e>>}
         /\ step' = "queried" /\ UNCHANGED <<key, msg, sig, read, ask>>
Accepts == /\ read.s < Q
           /\ read.s = (Lift(read.x) + Value(Input(read.x, ask[1], ask[2])) * ask[1]) % Q
Decide == /\ step = "queried" /\ step' = (IF Accepts THEN "accepted" ELSE "refused")
          /\ UNCHANGED <<key, msg, sig, read, oracle, ask>>
Next == Sign \/ Alter \/ Query \/ Decide
Spec == Init /\ [][Next]_vars

Untouched == read = sig /\ ask = <<key, msg>>
\* the predicate that module Secp256k1 computes over the real curve
Predicate ==
  LET r == (read.s + Neg((Value(Input(read.x, ask[1], ask[2])) * ask[1]) % Q)) % Q
  IN  read.s < Q /\ r # 0 /\ XOf(r) = read.x /\ Square(r)

Complete == step = "refused" => ~Untouched
StepsDecide == step \in {"accepted", "refused"} => (step = "accepted") = Predicate
\* with the question left alone only the signature itself passes
NoSecond == step = "accepted" /\ read.x = sig.x /\ ask = <<key, msg>> => read.s = sig.s
\* a new question gets a new challenge; exactly one scalar answers it
OneAnswer == step \in {"accepted", "refused"} =>
  Cardinality({s \in 0..(Q - 1 + Room) : s < Q /\ s = (Lift(read.x) + Value(Input(read.x, ask[1], ask[2])) * ask[1]) % Q}) = 1
=============================================================================
