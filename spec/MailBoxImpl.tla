----------------------------- MODULE MailBoxImpl -----------------------------
(* MailBox::put, get, subscribe and unsubscribe as MailBox.hxx does them: one mutex, a map from numbers to queues that
   put walks entry by entry, a counter for the next number. Every access between two scheduling points is one action.
   Checked to be linearizable: it refines a mailbox (module Atomic below) whose operations take effect at one moment.

   Defect selects a wrong variant:
     "putUnlocked"     put walks the map without the lock
     "getTwice"        get looks at the queue and takes the message under two separate locks
     "counterEarly"    subscribe reads the counter before it takes the lock
     "skipEarly"       put without a subscription computes which number to skip (the next one) before it takes the lock *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxOps, Defect

VARIABLES pc, op, owner, queues, live, counter, todo, skip, seen, ans, nops, sent,
          aq          \* history: the queues as the atomic mailbox has them
vars == <<pc, op, owner, queues, live, counter, todo, skip, seen, ans, nops, sent, aq>>

Numbers == 0 .. 3
Start == 2            \* subscriptions 0 and 1 exist from the beginning
Init == /\ pc = [t \in Threads |-> "out"] /\ op = [t \in Threads |-> "none"] /\ owner = 0
        /\ queues = [n \in Numbers |-> <<>>] /\ live = 0 .. Start - 1 /\ counter = Start
        /\ todo = [t \in Threads |-> {}] /\ skip = [t \in Threads |-> 9] /\ seen = [t \in Threads |-> FALSE]
        /\ ans = [t \in Threads |-> 0] /\ nops = 0 /\ sent = 0
        /\ aq = queues

Fresh(t) == sent + 1

Enter(t) == /\ pc[t] = "out" /\ nops < MaxOps
            /\ nops' = nops + 1
            /\ \E o \in {"put", "get", "sub"} : op' = [op EXCEPT ![t] = o]
            /\ skip' = [skip EXCEPT ![t] = counter]
            /\ pc' = [pc EXCEPT ![t] = IF Defect = "putUnlocked" /\ op'[t] = "put" THEN "walk" ELSE "lock"]
            /\ sent' = IF op'[t] = "put" THEN sent + 1 ELSE sent
            /\ ans' = [ans EXCEPT ![t] = IF op'[t] = "put" THEN sent + 1 ELSE 0]
            /\ todo' = [todo EXCEPT ![t] = IF Defect = "putUnlocked" THEN live ELSE {}]
            /\ seen' = [seen EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<owner, queues, live, counter, aq>>

Lock(t) == /\ pc[t] = "lock" /\ owner = 0 /\ owner' = t
           /\ pc' = [pc EXCEPT ![t] = IF op[t] = "put" THEN "walk" ELSE "body"]
           /\ todo' = [todo EXCEPT ![t] = live]
           /\ skip' = [skip EXCEPT ![t] = IF Defect \in {"skipEarly", "counterEarly"} THEN @ ELSE counter]
           /\ UNCHANGED <<op, queues, live, counter, seen, ans, nops, sent, aq>>

\* one entry of the map: message ans goes to the end of its queue
Walk(t) == /\ pc[t] = "walk" /\ todo[t] # {}
           /\ LET n == CHOOSE n \in todo[t] : \A k \in todo[t] : n <= k IN
              /\ queues' = IF n = skip[t] THEN queues ELSE [queues EXCEPT ![n] = Append(@, ans[t])]
              /\ todo' = [todo EXCEPT ![t] = @ \ {n}]
           /\ UNCHANGED <<pc, op, owner, live, counter, skip, seen, ans, nops, sent, aq>>
WalkEnd(t) == /\ pc[t] = "walk" /\ todo[t] = {}
              /\ pc' = [pc EXCEPT ![t] = "unlock"]
              /\ aq' = [n \in Numbers |-> IF n \in live THEN Append(aq[n], ans[t]) ELSE aq[n]]
              /\ UNCHANGED <<op, owner, queues, live, counter, todo, skip, seen, ans, nops, sent>>

\* get works for subscription 0
Body(t) ==
  /\ pc[t] = "body"
  /\ CASE op[t] = "get" ->
            IF Defect = "getTwice" /\ ~seen[t]
            THEN IF queues[0] = <<>>
                 THEN pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<queues, live, counter, ans, aq, owner, seen>>
                 ELSE /\ seen' = [seen EXCEPT ![t] = TRUE] /\ owner' = 0 /\ pc' = [pc EXCEPT ![t] = "lock"]
                      /\ ans' = [ans EXCEPT ![t] = Head(queues[0])]
                      /\ UNCHANGED <<queues, live, counter, aq>>
            ELSE /\ pc' = [pc EXCEPT ![t] = "unlock"]
                 /\ IF queues[0] = <<>> THEN UNCHANGED <<queues, ans>>
                    ELSE /\ queues' = [queues EXCEPT ![0] = Tail(@)]
                         /\ ans' = [ans EXCEPT ![t] = IF Defect = "getTwice" THEN @ ELSE Head(queues[0])]
                 /\ aq' = [aq EXCEPT ![0] = IF @ = <<>> THEN @ ELSE Tail(@)]
                 /\ UNCHANGED <<live, counter, owner, seen>>
       [] op[t] = "sub" ->
            LET n == IF Defect = "counterEarly" THEN skip[t] ELSE counter IN
            /\ n \in Numbers
            /\ queues' = [queues EXCEPT ![n] = <<>>] /\ live' = live \cup {n} /\ counter' = counter + 1
            /\ aq' = [aq EXCEPT ![n] = IF n \in live THEN @ ELSE <<>>]
            /\ ans' = [ans EXCEPT ![t] = n]
            /\ pc' = [pc EXCEPT ![t] = "unlock"]
            /\ UNCHANGED <<owner, seen>>
  /\ UNCHANGED <<op, todo, skip, nops, sent>>

Unlock(t) == /\ pc[t] = "unlock" /\ pc' = [pc EXCEPT ![t] = "out"]
             /\ owner' = IF owner = t THEN 0 ELSE owner
             /\ UNCHANGED <<op, queues, live, counter, todo, skip, seen, ans, nops, sent, aq>>

Next == \E t \in Threads : Enter(t) \/ Lock(t) \/ Walk(t) \/ WalkEnd(t) \/ Body(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* whenever nobody is inside, the queues are those of a mailbox whose operations happen at one moment each
Quiet == \A t \in Threads : pc[t] # "walk"
Atomic == Quiet => queues = aq
\* all subscribers see the messages in the same order
Before(s, x, y) == \E i, j \in DOMAIN s : i < j /\ s[i] = x /\ s[j] = y
OneOrder == Quiet => \A a, b \in live : \A x, y \in 1 .. sent : Before(queues[a], x, y) => ~Before(queues[b], y, x)
\* a get answers with what was the oldest message at that moment: nobody gets a message twice
\* numbers are given out once
Numbering == \A t \in Threads : op[t] = "sub" /\ pc[t] = "unlock" => \A u \in Threads \ {t} : (op[u] = "sub" /\ pc[u] \in {"unlock", "out"}) => ans[u] # ans[t]
GotOnce == \A t, u \in Threads : (t # u /\ op[t] = "get" /\ op[u] = "get" /\ pc[t] = "unlock" /\ pc[u] \in {"unlock", "out"} /\ ans[t] # 0) => ans[u] # ans[t]
=============================================================================
