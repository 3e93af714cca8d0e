------------------------------- MODULE Barrier -------------------------------
(* What a user of SoDa::Barrier can rely on.

   A call of wait is made (Call), takes part in the pass in progress (Arrive), and returns (Return).
   Arrive and Expire are not visible from outside: they happen at some moment between the call and its
   return. The size-th arrival of a pass releases the whole group at once. A wait with a limit that expires
   before its pass is complete breaks the barrier for good: it alone times out, everybody else who has not
   been released is refused.

   Time is a pair <<seconds, milliseconds>>; the limit <<0, 0>> means about 1000 days, which is long enough to be
   no limit: the only commitment is that such a wait does not time out before Ages have gone by. *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANT Threads

VARIABLES size,     \* the number of threads the barrier was made for
          now,
          pc,       \* "out", "called", "waiting", "passed", "timedout", "refused"
          limit, callAt,
          broken

bvars == <<size, now, pc, limit, callAt, broken>>

NoLimit == <<0, 0>>
Ages == <<77760000, 0>>          \* 900 days
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Plus(a, b) == LET m == a[2] + b[2] IN IF m >= 1000 THEN <<a[1] + b[1] + 1, m - 1000>> ELSE <<a[1] + b[1], m>>
Max2(a, b) == IF Leq(a, b) THEN b ELSE a

Waiting == {t \in Threads : pc[t] = "waiting"}
Deadline(t) == Plus(callAt[t], limit[t])

BInit(n) == /\ size = n /\ now = <<0, 0>> /\ broken = FALSE
            /\ pc = [t \in Threads |-> "out"]
            /\ limit = [t \in Threads |-> NoLimit]
            /\ callAt = [t \in Threads |-> <<0, 0>>]

\* Every action happens at some moment x, not before the last one
At(x) == Leq(now, x) /\ now' = x

Call(t, lim, x) == /\ At(x)
                   /\ pc[t] = "out"
                   /\ pc' = [pc EXCEPT ![t] = "called"]
                   /\ limit' = [limit EXCEPT ![t] = lim]
                   /\ callAt' = [callAt EXCEPT ![t] = x]
                   /\ UNCHANGED <<size, broken>>

Set(S, to) == [t \in Threads |-> IF t \in S THEN to ELSE pc[t]]

Arrive(t, x) == /\ At(x)
                /\ pc[t] = "called"
                /\ pc' = IF broken THEN Set({t}, "refused")
                         ELSE IF Cardinality(Waiting) + 1 = size THEN Set(Waiting \cup {t}, "passed")
                         ELSE Set({t}, "waiting")
                /\ UNCHANGED <<size, limit, callAt, broken>>

Expire(t, x) == /\ At(x)
                /\ pc[t] = "waiting"
                /\ Leq(IF limit[t] = NoLimit THEN Plus(callAt[t], Ages) ELSE Deadline(t), x)
                /\ broken' = TRUE
                /\ pc' = [u \in Threads |-> IF u = t THEN "timedout" ELSE IF u \in Waiting THEN "refused" ELSE pc[u]]
                /\ UNCHANGED <<size, limit, callAt>>

Outcome == [passed |-> "ok", timedout |-> "timeout", refused |-> "corrupt"]

Return(t, res, x) == /\ At(x)
                     /\ pc[t] \in DOMAIN Outcome /\ Outcome[pc[t]] = res
                     /\ pc' = [pc EXCEPT ![t] = "out"]
                     /\ UNCHANGED <<size, limit, callAt, broken>>

Tick(x) == At(x) /\ now # x /\ UNCHANGED <<size, pc, limit, callAt, broken>>

-----------------------------------------------------------------------------
\* State invariants
Incomplete == Cardinality(Waiting) < size                       \* B01: a complete group does not wait
NobodyLeft == broken => Waiting = {}                            \* B03: nobody is left in a broken barrier
OneTimeout == Cardinality({t \in Threads : pc[t] = "timedout"}) <= 1
=============================================================================
