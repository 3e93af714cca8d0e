------------------------------ MODULE MCBarrier ------------------------------
(* Every program of a bounded size for a few threads, run on Barrier.tla: a thread sleeps ("s") or waits at
   the barrier ("w") for a number of seconds, 0 meaning no limit. Time passes only when nobody can do
   anything. With Gen, the programs are printed, to be run on the real Barrier. *)
EXTENDS Barrier, TLC, Json

CONSTANTS Steps,      \* a sequence of strings such as "w2", "s1"
          MaxLen, Sizes, Gen

S1 == <<"w0", "s1">>
S2 == <<"w0", "w2", "s1">>
S3 == <<"w0", "w1", "w2", "s1">>
S4 == <<"w0", "w1", "w2", "w3", "s1", "s2">>

Secs == [w0 |-> 0, w1 |-> 1, w2 |-> 2, w3 |-> 3, s1 |-> 1, s2 |-> 2]
IsWait == [w0 |-> TRUE, w1 |-> TRUE, w2 |-> TRUE, w3 |-> TRUE, s1 |-> FALSE, s2 |-> FALSE]

VARIABLES prog, ip, wakeAt,
          got         \* what the calls of each thread have returned (history)
vars == <<bvars, prog, ip, wakeAt, got>>

Progs == {p \in UNION {[1 .. k -> DOMAIN Steps] : k \in 1 .. MaxLen} : IsWait[Steps[p[Len(p)]]]}
Code(p) == LET c[k \in 0 .. Len(p)] == IF k = 0 THEN 0 ELSE c[k - 1] * (Len(Steps) + 1) + p[k] IN c[Len(p)]

Init == /\ \E n \in Sizes : BInit(n)
        /\ prog \in [Threads -> Progs]
        /\ \A t \in Threads : (t + 1) \in Threads => Code(prog[t]) <= Code(prog[t + 1])
        /\ ip = [t \in Threads |-> 1] /\ wakeAt = [t \in Threads |-> <<0, 0>>]
        /\ got = [t \in Threads |-> <<>>]

Step(t) == Steps[prog[t][ip[t]]]
Ready(t) == pc[t] = "out" /\ ip[t] <= Len(prog[t]) /\ Leq(wakeAt[t], now)

DoSleep(t) == /\ Ready(t) /\ ~IsWait[Step(t)]
              /\ wakeAt' = [wakeAt EXCEPT ![t] = Plus(now, <<Secs[Step(t)], 0>>)]
              /\ ip' = [ip EXCEPT ![t] = @ + 1]
              /\ UNCHANGED <<bvars, prog, got>>
DoCall(t) == /\ Ready(t) /\ IsWait[Step(t)]
             /\ Call(t, <<Secs[Step(t)], 0>>, now)
             /\ UNCHANGED <<prog, ip, wakeAt, got>>
DoReturn(t) == \E r \in {"ok", "timeout", "corrupt"} :
                 /\ Return(t, r, now)
                 /\ ip' = [ip EXCEPT ![t] = @ + 1]
                 /\ got' = [got EXCEPT ![t] = Append(@, r)]
                 /\ UNCHANGED <<prog, wakeAt>>
DoHidden(t) == (Arrive(t, now) \/ Expire(t, now)) /\ UNCHANGED <<prog, ip, wakeAt, got>>

Busy == \E t \in Threads : \/ Ready(t) \/ pc[t] \notin {"out", "waiting"}
                           \/ (pc[t] = "waiting" /\ limit[t] # NoLimit /\ Leq(Deadline(t), now))
Moments == {Deadline(t) : t \in {u \in Threads : pc[u] = "waiting" /\ limit[u] # NoLimit}}
           \cup {wakeAt[t] : t \in {u \in Threads : pc[u] = "out" /\ ip[u] <= Len(prog[u])}}
Pass == /\ ~Busy /\ Moments # {}
        /\ Tick(CHOOSE x \in Moments : \A y \in Moments : Leq(x, y))
        /\ UNCHANGED <<prog, ip, wakeAt, got>>

Next == (\E t \in Threads : DoSleep(t) \/ DoCall(t) \/ DoReturn(t) \/ DoHidden(t)) \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
All(r) == LET n(t) == Cardinality({i \in DOMAIN got[t] : got[t][i] = r})
              sum[S \in SUBSET Threads] == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN n(t) + sum[S \ {t}]
          IN sum[Threads] + Cardinality({t \in Threads : pc[t] \in DOMAIN Outcome /\ Outcome[pc[t]] = r})

B01 == /\ Incomplete
       /\ All("ok") % size = 0                                                 \* complete groups only
B02 == \A t \in Threads : /\ pc[t] = "timedout" => limit[t] # NoLimit /\ Leq(Deadline(t), now)
                          /\ (pc[t] # "out" /\ limit[t] # NoLimit) => Leq(now, Deadline(t))
B03 == /\ NobodyLeft
       /\ All("timeout") = IF broken THEN 1 ELSE 0
       /\ All("corrupt") > 0 => broken
       /\ \A t \in Threads : \A i, j \in DOMAIN got[t] : (got[t][i] # "ok" /\ j > i) => got[t][j] = "corrupt"
\* a barrier that is broken stays so; nobody passes it afterwards
Sticky == [][broken => broken' /\ All("ok")' = All("ok")]_vars
\* who is left at the end waits without a limit for a pass that is incomplete
Rest == ~ENABLED Next => \A t \in Threads : pc[t] = "out" \/ (pc[t] = "waiting" /\ limit[t] = NoLimit /\ ~broken)

Emit == (Gen /\ now = <<0, 0>> /\ \A t \in Threads : ip[t] = 1 /\ pc[t] = "out" /\ wakeAt[t] = <<0, 0>>)
        => PrintT(<<"GEN", ToJson([size |-> size, prog |-> [i \in 1 .. Cardinality(Threads) |-> [k \in DOMAIN prog[i - 1] |-> Steps[prog[i - 1][k]]]]])>>)
=============================================================================
