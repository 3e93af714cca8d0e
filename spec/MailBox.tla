------------------------------- MODULE MailBox -------------------------------
(* What users of SoDa::MailBox can rely on, one operation at a time.

   The state m is a record:
     boxes   the mailboxes that exist
     status  of each subscription: "none" not made yet, "live", "gone" unsubscribed by number while the subscription
             object is still there, "lost" live but its object has been leaked, "dropped"
     box     the mailbox a subscription belongs to
     num     its number
     q       the messages queued for it, oldest first
     hand    the message each caller variable holds, 0 none

   Result(m, o) is what operation o returns, After(m, o) the state it leads to. An operation is a record with
   field op and its arguments: b mailbox, k subscription, h variable, x message, n number. Operation "visit" is n
   subscriptions that come and go one after the other: nobody notices. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Slots, Hands

Empty(nboxes) == [boxes |-> 1 .. nboxes,
                  status |-> [k \in Slots |-> "none"], box |-> [k \in Slots |-> 0],
                  num |-> [k \in Slots |-> -1], q |-> [k \in Slots |-> <<>>],
                  hand |-> [h \in Hands |-> 0]]

Receives(m, k, b) == m.box[k] = b /\ m.status[k] \in {"live", "lost"}
Live(m, b) == {k \in Slots : Receives(m, k, b)}
Numbered(m, b, n) == {k \in Live(m, b) : m.num[k] = n}

\* use of subscription k with mailbox b
Use(m, b, k) == IF m.box[k] # b THEN "mismatch" ELSE IF m.status[k] = "gone" THEN "missing" ELSE "ok"

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Deliver(m, b, xs, skip) == [m EXCEPT !.q = [k \in Slots |-> IF Receives(m, k, b) /\ k # skip THEN m.q[k] \o xs ELSE m.q[k]]]
End(m, k, to) == [m EXCEPT !.status[k] = to, !.q[k] = <<>>]
NoSlot == -1

Msgs(xs) == <<"m">> \o xs
Num(n) == <<"i", n>>

Result(m, o) ==
  CASE o.op \in {"sub", "new", "put", "puts", "let", "drop", "lose", "destroy", "convert", "visit", "finish"} -> <<"ok">>
    [] o.op = "putn" -> IF m.box[o.k] # o.b THEN <<"mismatch">> ELSE <<"ok">>
    [] o.op = "badconvert" -> <<"badconversion">>
    [] o.op = "clear" -> <<Use(m, o.b, o.k)>>
    [] o.op = "unsub" -> IF Numbered(m, o.b, o.n) = {} THEN <<"missing">> ELSE <<"ok">>
    [] o.op \in {"get", "gets"} -> IF Use(m, o.b, o.k) # "ok" THEN <<Use(m, o.b, o.k)>>
                                   ELSE Msgs(Take(m.q[o.k], IF o.op = "get" THEN 1 ELSE o.n))
    [] o.op = "ready" -> IF Use(m, o.b, o.k) # "ok" THEN <<Use(m, o.b, o.k)>> ELSE Num(Len(m.q[o.k]))
    [] o.op = "min" -> Num(Min({Len(m.q[k]) : k \in Live(m, o.b)}))
    [] o.op = "count" -> Num(Cardinality(Live(m, o.b)))

\* the smallest count is not specified while nobody is subscribed
Open(m, o) == o.op = "min" /\ Live(m, o.b) = {}

After(m, o) ==
  CASE o.op = "sub" -> [m EXCEPT !.status[o.k] = "live", !.box[o.k] = o.b, !.num[o.k] = o.n, !.q[o.k] = <<>>]
    [] o.op = "new" -> [m EXCEPT !.hand[o.h] = o.x]
    [] o.op = "let" -> [m EXCEPT !.hand[o.h] = 0]
    [] o.op = "put" -> Deliver(m, o.b, IF "h" \in DOMAIN o THEN <<m.hand[o.h]>> ELSE <<o.x>>, NoSlot)
    [] o.op = "putn" -> IF m.box[o.k] # o.b THEN m
                        ELSE Deliver(m, o.b, IF "h" \in DOMAIN o THEN <<m.hand[o.h]>> ELSE <<o.x>>, o.k)
    [] o.op = "puts" -> Deliver(m, o.b, [i \in 1 .. o.n |-> o.x + i - 1], NoSlot)
    [] o.op = "get" -> IF Use(m, o.b, o.k) # "ok" THEN m
                       ELSE LET r == [m EXCEPT !.q[o.k] = Drop(@, 1)] IN
                            IF "h" \in DOMAIN o THEN [r EXCEPT !.hand[o.h] = IF m.q[o.k] = <<>> THEN 0 ELSE m.q[o.k][1]] ELSE r
    [] o.op = "gets" -> IF Use(m, o.b, o.k) # "ok" THEN m ELSE [m EXCEPT !.q[o.k] = Drop(@, o.n)]
    [] o.op = "clear" -> IF Use(m, o.b, o.k) # "ok" THEN m ELSE [m EXCEPT !.q[o.k] = <<>>]
    [] o.op = "unsub" -> IF Numbered(m, o.b, o.n) = {} THEN m
                         ELSE LET k == CHOOSE k \in Numbered(m, o.b, o.n) : TRUE IN
                              End(m, k, IF m.status[k] = "lost" THEN "dropped" ELSE "gone")
    [] o.op = "drop" -> End(m, o.k, "dropped")
    [] o.op = "lose" -> [m EXCEPT !.status[o.k] = IF @ = "live" THEN "lost" ELSE "dropped"]
    [] o.op = "destroy" -> [m EXCEPT !.boxes = @ \ {o.b},
                                     !.status = [k \in Slots |-> IF m.box[k] = o.b THEN "dropped" ELSE m.status[k]],
                                     !.q = [k \in Slots |-> IF m.box[k] = o.b THEN <<>> ELSE m.q[k]]]
    \* everybody leaves: subscriptions, caller variables and mailboxes go
    [] o.op = "finish" -> [m EXCEPT !.boxes = {}, !.q = [k \in Slots |-> <<>>], !.hand = [h \in Hands |-> 0]]
    [] OTHER -> m

\* A number is not given to two subscriptions whose objects exist at the same time
FreshNumber(m, b, n) == \A k \in Slots : (m.box[k] = b /\ m.status[k] \in {"live", "gone", "lost"}) => m.num[k] # n

\* M06: the messages that somebody can still get or holds
SeqRange(s) == {s[i] : i \in DOMAIN s}
Queued(m) == UNION {SeqRange(m.q[k]) : k \in Slots}
Alive(m) == Queued(m) \cup ({m.hand[h] : h \in Hands} \ {0})

\* What a caller may do: anything but use what it does not have
Allowed(m, o) ==
  CASE o.op = "sub" -> o.b \in m.boxes /\ m.status[o.k] = "none"
    [] o.op \in {"put", "puts", "min", "count", "unsub", "convert", "badconvert", "visit"} -> o.b \in m.boxes /\ ("h" \in DOMAIN o => m.hand[o.h] # 0)
    \* naming a subscription that has been unsubscribed in a put is left open
    [] o.op = "putn" -> o.b \in m.boxes /\ m.status[o.k] \in {"live"} \cup (IF m.box[o.k] # o.b THEN {"gone"} ELSE {}) /\ ("h" \in DOMAIN o => m.hand[o.h] # 0)
    [] o.op \in {"get", "gets", "ready", "clear"} -> o.b \in m.boxes /\ m.status[o.k] \in {"live", "gone"}
    [] o.op \in {"drop", "lose"} -> m.status[o.k] \in {"live", "gone"}
    \* a subscription object must not outlive its mailbox
    [] o.op = "destroy" -> o.b \in m.boxes /\ \A k \in Slots : m.box[k] = o.b => m.status[k] \in {"none", "dropped", "lost"}
    [] OTHER -> TRUE
=============================================================================
