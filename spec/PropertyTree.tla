----------------------------- MODULE PropertyTree -----------------------------
(***************************************************************************)
(* SoDa::PropertyTree and PropertyTreeYAML.  The state of a tree is the    *)
(* document it stands for.  A node is one of                               *)
(*    [k |-> "s", t |-> text]                       a scalar               *)
(*    [k |-> "m", c |-> << <<key, node>>, ... >>]   a map                  *)
(*    [k |-> "l", i |-> << node, ... >>]            a sequence             *)
(***************************************************************************)
EXTENDS Text

Empty == [k |-> "m", c |-> <<>>]
IsMap(n) == n.k = "m"

Keys(n) == IF IsMap(n) THEN {n.c[i][1] : i \in 1 .. Len(n.c)} ELSE {}
Has(n, key) == key \in Keys(n)
Child(n, key) == LET i == CHOOSE i \in 1 .. Len(n.c) : n.c[i][1] = key IN n.c[i][2]
Items(n) == IF n.k = "l" THEN n.i ELSE <<>>

(* P04: a later document is added to the tree *)
RECURSIVE Merge(_, _)
Merge(a, b) ==
    IF ~IsMap(a) \/ ~IsMap(b) THEN b
    ELSE [k |-> "m",
          c |-> [i \in 1 .. Len(a.c) |->
                   IF Has(b, a.c[i][1]) THEN <<a.c[i][1], Merge(a.c[i][2], Child(b, a.c[i][1]))>> ELSE a.c[i]]
                \o SelectSeq(b.c, LAMBDA e : ~Has(a, e[1]))]

(* P01, P02: the node a path leads to *)
RECURSIVE PathKeys(_)
PathKeys(p) == LET e == Find(":", p, 1)
               IN IF e = 0 THEN (IF p = "" THEN <<>> ELSE <<p>>)
                  ELSE <<SubSeq(p, 1, e - 1)>> \o PathKeys(From(p, e + 1))
RECURSIVE PathOf(_)
PathOf(ks) == IF ks = <<>> THEN "" ELSE IF Len(ks) = 1 THEN ks[1] ELSE ks[1] \o ":" \o PathOf(Tail(ks))

RECURSIVE Leads(_, _)
Leads(n, ks) == ks = <<>> \/ (Has(n, Head(ks)) /\ Leads(Child(n, Head(ks)), Tail(ks)))
RECURSIVE At(_, _)
At(n, ks) == IF ks = <<>> THEN n ELSE At(Child(n, Head(ks)), Tail(ks))

(* P07: the text form.  order is a sequence of keys, in the order in which  *)
(* the keys of a map are written                                            *)
Sorted(keys, order) == SelectSeq(order, LAMBDA key : key \in keys)
RECURSIVE Dump(_, _, _)
Dump(n, ind, order) ==
    LET deeper == ind \o "  "
    IN CASE n.k = "s" -> ind \o n.t \o "\n"
         [] n.k = "l" -> IF n.i = <<>> THEN ""
                         ELSE "<<<PROPLIST>>>\n"
                              \o Cat([i \in 1 .. Len(n.i) |-> Dump(n.i[i], IF n.i[i].k = "s" THEN ind ELSE deeper, order)])
         [] n.k = "m" -> IF n.c = <<>> THEN ""
                         ELSE LET ks == Sorted(Keys(n), order)
                              IN "<<<DICTIONARY>>>\n"
                                 \o Cat([i \in 1 .. Len(ks) |->
                                       LET x == Child(n, ks[i])
                                       IN ind \o ks[i] \o ":  " \o (IF x.k = "s" THEN x.t \o "\n" ELSE "\n" \o Dump(x, deeper, order))])
=============================================================================
