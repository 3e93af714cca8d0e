------------------------------ MODULE TwoBarriers ------------------------------
(* Threads that use two barriers. A thread is inside one of them at a time; each step is a step of one barrier and
   leaves the other as it was (B04). Threads follow their programs: sequences of <<barrier, limit>>.

   Checked: each barrier by itself behaves as Barrier.tla says (OneOnly, OtherOnly and the invariants); if all
   threads pass both barriers without limits in the same order, everybody gets through (Through), which CHECK_DEADLOCK
   establishes; in opposite orders they are stuck, which is not the fault of any barrier (StuckOnly: whoever is left
   waits for an incomplete pass). *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Size1, Size2, Programs, MaxTime
VARIABLES size1, now1, pc1, limit1, callAt1, broken1,
          size2, now2, pc2, limit2, callAt2, broken2,
          prog
A == INSTANCE Barrier WITH size <- size1, now <- now1, pc <- pc1, limit <- limit1, callAt <- callAt1, broken <- broken1
B == INSTANCE Barrier WITH size <- size2, now <- now2, pc <- pc2, limit <- limit2, callAt <- callAt2, broken <- broken2
va == <<size1, now1, pc1, limit1, callAt1, broken1>>
vb == <<size2, now2, pc2, limit2, callAt2, broken2>>
vars == <<va, vb, prog>>

Init == A!BInit(Size1) /\ B!BInit(Size2) /\ prog \in [Threads -> Programs]

Inside(t) == pc1[t] # "out" \/ pc2[t] # "out"
Results == {"ok", "timeout", "corrupt"}

Enter(t) == /\ ~Inside(t) /\ prog[t] # <<>>
            /\ prog' = [prog EXCEPT ![t] = Tail(@)]
            /\ LET p == Head(prog[t]) IN
               IF p[1] = 1 THEN A!Call(t, p[2], now1) /\ UNCHANGED vb ELSE B!Call(t, p[2], now2) /\ UNCHANGED va

StepA == /\ \E t \in Threads : A!Arrive(t, now1) \/ A!Expire(t, now1) \/ \E r \in Results : A!Return(t, r, now1)
         /\ UNCHANGED <<vb, prog>>
StepB == /\ \E t \in Threads : B!Arrive(t, now2) \/ B!Expire(t, now2) \/ \E r \in Results : B!Return(t, r, now2)
         /\ UNCHANGED <<va, prog>>

\* the clock is the same for both; it does not pass a deadline with a call undecided
Timely == \A t \in Threads :
            /\ pc1[t] \notin {"called", "passed", "timedout", "refused"} /\ pc2[t] \notin {"called", "passed", "timedout", "refused"}
            /\ pc1[t] = "waiting" /\ limit1[t] # A!NoLimit => ~A!Leq(A!Deadline(t), now1)
            /\ pc2[t] = "waiting" /\ limit2[t] # B!NoLimit => ~B!Leq(B!Deadline(t), now2)
Tick == /\ Timely /\ now1[1] < MaxTime
        /\ A!Tick(<<now1[1] + 1, 0>>) /\ B!Tick(<<now1[1] + 1, 0>>) /\ UNCHANGED prog

Done == \A t \in Threads : prog[t] = <<>> /\ ~Inside(t)
Next == \/ \E t \in Threads : Enter(t)
        \/ StepA \/ StepB \/ Tick
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Invariants == /\ A!Incomplete /\ A!NobodyLeft /\ A!OneTimeout
              /\ B!Incomplete /\ B!NobodyLeft /\ B!OneTimeout
              /\ now1 = now2

\* each barrier alone takes the steps of Barrier.tla
StepOf1 == \E x \in {now1'} : \/ \E t \in Threads : A!Arrive(t, x) \/ A!Expire(t, x)
                              \/ \E t \in Threads, r \in Results : A!Return(t, r, x)
                              \/ \E t \in Threads : A!Call(t, limit1'[t], x)
                              \/ A!Tick(x)
StepOf2 == \E x \in {now2'} : \/ \E t \in Threads : B!Arrive(t, x) \/ B!Expire(t, x)
                              \/ \E t \in Threads, r \in Results : B!Return(t, r, x)
                              \/ \E t \in Threads : B!Call(t, limit2'[t], x)
                              \/ B!Tick(x)
Alone == [][StepOf1]_va /\ [][StepOf2]_vb

\* breaking one leaves the other whole: broken1 changes only by a timeout of a wait on the first one
OwnFault == [][/\ (broken1' /\ ~broken1 => \E t \in Threads : pc1[t] = "waiting" /\ limit1[t] # <<0, 0>> /\ pc1'[t] = "timedout")
               /\ (broken2' /\ ~broken2 => \E t \in Threads : pc2[t] = "waiting" /\ limit2[t] # <<0, 0>> /\ pc2'[t] = "timedout")]_vars

Z == <<0, 0>>
L == <<1, 0>>
SameOrder == {<<<<1, Z>>, <<2, Z>>>>, <<<<1, Z>>, <<2, Z>>, <<1, Z>>>>}
InOrder == {<<<<1, Z>>, <<2, Z>>, <<1, Z>>, <<2, Z>>>>}
Few == {<<<<1, L>>, <<2, Z>>>>, <<<<2, L>>, <<1, L>>>>, <<<<1, Z>>>>}
Mixed == {<<<<1, Z>>>>, <<<<1, L>>, <<2, Z>>>>, <<<<2, L>>, <<1, L>>>>, <<<<2, Z>>, <<1, Z>>>>, <<<<1, Z>>, <<2, L>>>>}
=============================================================================
