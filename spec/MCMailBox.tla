------------------------------ MODULE MCMailBox ------------------------------
(* Every sequence of operations up to a length on a mailbox or two, with the consequences the properties state
   checked on each step. With Gen the sequences are printed, to be run on the real MailBox. *)
EXTENDS MailBox, TLC, Json

CONSTANTS Ops,        \* the set of operations to choose from (records; numbers and message names are filled in)
          Prefix,     \* operations done first
          MaxLen, Gen

\* Sets of operations and prefixes for the configurations
S(b, k) == [op |-> "sub", b |-> b, k |-> k, n |-> k]
P(b, n) == [op |-> "puts", b |-> b, x |-> 0, n |-> n]
On(op, b, k) == [op |-> op, b |-> b, k |-> k]
Ask(op, b) == [op |-> op, b |-> b]
U(b, n) == [op |-> "unsub", b |-> b, n |-> n]
PreTwo == <<S(1, 0), S(1, 1)>>
PreSome == <<S(1, 0), [op |-> "puts", b |-> 1, x |-> 1, n |-> 2], S(1, 1), [op |-> "puts", b |-> 1, x |-> 3, n |-> 1]>>
PreBoth == <<S(1, 0), S(2, 1), [op |-> "puts", b |-> 1, x |-> 1, n |-> 1], [op |-> "puts", b |-> 2, x |-> 2, n |-> 2]>>
PreHand == <<S(1, 0), S(1, 1), [op |-> "new", h |-> 0, x |-> 1]>>
OpsFlow == {P(1, 1), P(1, 2), On("get", 1, 0), On("get", 1, 1), On("ready", 1, 0), S(1, 2), On("get", 1, 2), On("gets", 1, 1) @@ [n |-> 2]}
OpsSkip == {P(1, 1), On("get", 1, 0), On("get", 1, 1), S(1, 2), On("get", 1, 2), On("drop", 1, 1), [op |-> "new", h |-> 0]}
           \cup {On("putn", 1, k) @@ [h |-> 0] : k \in 0 .. 2}
OpsSubs == {P(1, 1), S(1, 2), S(1, 3), On("get", 1, 1), On("get", 1, 2), On("ready", 1, 3), Ask("count", 1)}
           \cup {On(o, 1, k) : o \in {"clear", "drop"}, k \in 0 .. 2} \cup {U(1, k) : k \in 0 .. 1}
OpsCounts == {P(1, 1), P(1, 3), S(1, 2), Ask("min", 1), Ask("count", 1), On("ready", 1, 0), On("ready", 1, 1), On("ready", 1, 2),
              On("get", 1, 0), On("get", 1, 1), On("clear", 1, 0), On("drop", 1, 1)}
OpsMisuse == {P(1, 1), U(1, 0), U(1, 7), U(2, 1), Ask("convert", 1), Ask("badconvert", 2), Ask("count", 1), S(1, 2), [op |-> "new", h |-> 0]}
             \cup {On(o, b, k) : o \in {"get", "ready", "clear"}, b \in 1 .. 2, k \in 0 .. 1}
             \cup {On("putn", b, k) @@ [h |-> 0] : b \in 1 .. 2, k \in 0 .. 1} \cup {On("drop", 1, 0)}
OpsLife == {[op |-> "new", h |-> 0], [op |-> "put", b |-> 1, h |-> 0], [op |-> "let", h |-> 0], [op |-> "let", h |-> 1], P(1, 1),
            On("get", 1, 0) @@ [h |-> 1], On("get", 1, 1) @@ [h |-> 1], On("clear", 1, 0), On("drop", 1, 0), U(1, 1), On("lose", 1, 0),
            On("lose", 1, 1), On("drop", 1, 1), Ask("destroy", 1), On("putn", 1, 1) @@ [h |-> 0]}

VARIABLES m, hist, last, next
vars == <<m, hist, last, next>>

\* subscription k of any mailbox gets the number k; a put puts the next message
Fill(o) == IF o.op = "sub" THEN [op |-> "sub", b |-> o.b, k |-> o.k, n |-> o.k]
           ELSE IF o.op = "new" THEN [op |-> "new", h |-> o.h, x |-> next]
           ELSE IF o.op = "puts" THEN [op |-> "puts", b |-> o.b, x |-> next, n |-> o.n]
           ELSE o

Apply(s, o) == After(s, o)
RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(Apply(s, Head(os)), Tail(os))

Nothing == [op |-> "nothing"]
Init == m = Run(Empty(2), Prefix) /\ hist = <<>> /\ last = [o |-> Nothing, r |-> <<"ok">>, was |-> m] /\ next = 100

Do(o) == /\ Len(hist) < MaxLen
         /\ Allowed(m, o)
         /\ m' = After(m, o)
         /\ hist' = Append(hist, o)
         /\ last' = [o |-> o, r |-> IF Open(m, o) THEN <<"open">> ELSE Result(m, o), was |-> m]
         /\ next' = next + 10
Next == \E o \in Ops : Do(Fill(o))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
W == last.was
O == last.o
IsPut == O.op \in {"put", "puts"}
\* M01: every live subscription receives what is put, last; get takes the oldest, or nothing iff there is none
M01 == /\ IsPut => \A k \in Slots : IF Receives(W, k, O.b) THEN Len(m.q[k]) > Len(W.q[k]) /\ Take(m.q[k], Len(W.q[k])) = W.q[k]
                                    ELSE m.q[k] = W.q[k]
       /\ IsPut => \A j, k \in Live(W, O.b) : Drop(m.q[j], Len(W.q[j])) = Drop(m.q[k], Len(W.q[k]))
       /\ (O.op = "get" /\ Use(W, O.b, O.k) = "ok") =>
             IF W.q[O.k] = <<>> THEN last.r = <<"m">> ELSE last.r = <<"m", W.q[O.k][1]>> /\ m.q[O.k] = Tail(W.q[O.k])
\* M02
M02 == (O.op = "putn" /\ last.r = <<"ok">>) => \A k \in Slots : Len(m.q[k]) = Len(W.q[k]) + (IF Receives(W, k, O.b) /\ k # O.k THEN 1 ELSE 0)
\* M03: what is done to one subscription does not touch another
M03 == /\ (O.op = "sub") => m.q[O.k] = <<>> /\ \A k \in Slots \ {O.k} : m.q[k] = W.q[k] /\ m.status[k] = W.status[k]
       /\ (O.op \in {"clear", "drop", "get", "gets"}) => \A k \in Slots \ {O.k} : m.q[k] = W.q[k] /\ m.status[k] = W.status[k]
       /\ (O.op = "unsub") => Cardinality({k \in Slots : m.status[k] # W.status[k]}) = (IF last.r = <<"ok">> THEN 1 ELSE 0)
       /\ \A k \in Slots : m.status[k] \in {"none", "gone", "dropped"} => m.q[k] = <<>>
\* M04: asking changes nothing, and the answers fit each other
M04 == O.op \in {"ready", "min", "count"} => m = W
M04b == \A b \in m.boxes : Live(m, b) # {} =>
           LET r == Result(m, [op |-> "min", b |-> b])[2] IN
           /\ \A k \in Live(m, b) : r <= Len(m.q[k])
           /\ \E k \in Live(m, b) : r = Len(m.q[k])
\* M05: misuse has no effect
M05 == last.r[1] \in {"missing", "mismatch", "badconversion"} => m = W
\* M06: a message that is neither queued nor held never comes back
M06 == \A x \in Alive(m) : x \in Alive(W) \/ (O.op = "new" /\ x = O.x) \/ (O.op = "puts" /\ x \in O.x .. O.x + O.n)

Emit == (Gen /\ Len(hist) = MaxLen) => PrintT(<<"GEN", ToJson(Prefix \o hist)>>)
=============================================================================
