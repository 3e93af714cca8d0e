------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Threads that share no object.  A call of the library takes several      *)
(* steps: it reads its argument character by character into a scratch      *)
(* text and then returns what it made.  Where every thread has a scratch   *)
(* text of its own, each call returns what it would return alone           *)
(* (C01: Alone).                                                           *)
(*                                                                         *)
(* Scratch = "own"           a local variable                              *)
(*           "static"        one scratch text for everybody                *)
(*           "lockedSteps"   one for everybody, each step under a lock     *)
(*           "staticResult"  own scratch, but the result is handed over    *)
(*                           in one place for everybody                    *)
(* The last three are wrong, and TLC finds out.                            *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANTS Threads, Texts, Calls, Scratch

VARIABLES pc,         \* per thread: "out", "work", "hand", "take"
          arg,        \* per thread: the argument of the call
          i,          \* per thread: characters read
          scratch,    \* per slot: the text so far
          out,        \* per slot: the text handed over
          left,       \* per thread: calls still to make
          wrong       \* results that differ from those of the call alone

vars == <<pc, arg, i, scratch, out, left, wrong>>

Nobody == "nobody"
Slots == Threads \cup {Nobody}
S(t) == IF Scratch \in {"own", "staticResult"} THEN t ELSE Nobody
O(t) == IF Scratch = "own" THEN t ELSE IF Scratch = "staticResult" THEN Nobody ELSE t

(* what a call makes of its argument, alone *)
RECURSIVE Twice(_)
Twice(s) == IF s = "" THEN "" ELSE Ch(s, 1) \o Ch(s, 1) \o Twice(SubSeq(s, 2, Len(s)))

Init == /\ pc = [t \in Threads |-> "out"]
        /\ arg = [t \in Threads |-> ""]
        /\ i = [t \in Threads |-> 0]
        /\ scratch = [t \in Slots |-> ""]
        /\ out = [t \in Slots |-> ""]
        /\ left = [t \in Threads |-> Calls]
        /\ wrong = {}

Call(t) == /\ pc[t] = "out" /\ left[t] > 0
           /\ \E x \in Texts : arg' = [arg EXCEPT ![t] = x]
           /\ pc' = [pc EXCEPT ![t] = "work"]
           /\ i' = [i EXCEPT ![t] = 0]
           /\ scratch' = [scratch EXCEPT ![S(t)] = ""]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<out, wrong>>

Work(t) == /\ pc[t] = "work" /\ i[t] < Len(arg[t])
           /\ i' = [i EXCEPT ![t] = @ + 1]
           /\ LET c == Ch(arg[t], i[t] + 1) IN scratch' = [scratch EXCEPT ![S(t)] = @ \o c \o c]
           /\ UNCHANGED <<pc, arg, out, left, wrong>>

Hand(t) == /\ pc[t] = "work" /\ i[t] = Len(arg[t])
           /\ out' = [out EXCEPT ![O(t)] = scratch[S(t)]]
           /\ pc' = [pc EXCEPT ![t] = "take"]
           /\ UNCHANGED <<arg, i, scratch, left, wrong>>

Take(t) == /\ pc[t] = "take"
           /\ wrong' = IF out[O(t)] = Twice(arg[t]) THEN wrong ELSE wrong \cup {<<t, arg[t], out[O(t)]>>}
           /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ UNCHANGED <<arg, i, scratch, out, left>>

Step(t) == Call(t) \/ Work(t) \/ Hand(t) \/ Take(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Alone == wrong = {}
Ends == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "out")
=============================================================================
