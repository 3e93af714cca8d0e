---------------------------- MODULE MCPropertyTree ----------------------------
(***************************************************************************)
(* The heap of PropNodes as fillRecurse builds it (parent, val_string,     *)
(* is_terminal, prop_list, dictionary), for every sequence of up to        *)
(* MaxDocs small documents, against the declarative Merge.  Checks P01     *)
(* (lookup), P03 (keys and lists), P04 (merging), P05 (path names) and     *)
(* P07 (text form).                                                        *)
(***************************************************************************)
EXTENDS PropertyTree, TLC, Json
CONSTANTS KeySet, Texts, Deep, MaxDocs, Gen

VARIABLES docs,     \* documents read so far
          tree,     \* specification
          heap      \* code; node 1 is the root
vars == <<docs, tree, heap>>

------------------------------------------------------------------------------
(* the documents                                                            *)
Scalars == {[k |-> "s", t |-> x] : x \in Texts}
ListsOf(S) == {[k |-> "l", i |-> <<>>]} \cup {[k |-> "l", i |-> <<x>>] : x \in S}
              \cup {[k |-> "l", i |-> <<x, y>>] : x \in S, y \in S}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
MapsOf(S) == UNION {{[k |-> "m", c |-> LET ks == SeqOfSet(K) IN [i \in 1 .. Len(ks) |-> <<ks[i], f[ks[i]]>>]]
                      : f \in [K -> S]} : K \in SUBSET KeySet}
Inner == IF Deep THEN Scalars \cup ListsOf(Scalars) \cup MapsOf(Scalars)
         ELSE Scalars \cup {[k |-> "l", i |-> <<x>>] : x \in Scalars} \cup MapsOf(Scalars)
Docs == MapsOf(Inner)

(* documents that give different kinds of node at one path are outside P04 *)
RECURSIVE Compatible(_, _)
Compatible(a, b) == /\ a.k = b.k
                    /\ (a.k = "m" => \A key \in Keys(a) \cap Keys(b) : Compatible(Child(a, key), Child(b, key)))
                    /\ a.k # "l"

------------------------------------------------------------------------------
(* PropertyTreeYAML::fillRecurse                                             *)
NewNode(par, val, term) == [parent |-> par, val |-> val, term |-> term, list |-> <<>>, dict |-> <<>>]
Slot(n, key) == LET I == {i \in 1 .. Len(n.dict) : n.dict[i][1] = key} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
SetSlot(h, p, key, id) == LET s == Slot(h[p], key)
                          IN [h EXCEPT ![p].dict = IF s = 0 THEN Append(@, <<key, id>>) ELSE [@ EXCEPT ![s] = <<key, id>>]]

RECURSIVE Fill(_, _, _), FillItems(_, _, _), FillMap(_, _, _)
Fill(h, p, n) ==
    CASE n.k = "s" -> [Append(h, NewNode(p, n.t, TRUE)) EXCEPT ![p].list = Append(@, Len(h) + 1)]
      [] n.k = "l" -> FillItems(h, p, n.i)
      [] n.k = "m" -> FillMap(h, p, n.c)
FillItems(h, p, its) ==
    IF its = <<>> THEN h
    ELSE IF Head(its).k = "s" THEN FillItems(Fill(h, p, Head(its)), p, Tail(its))
    ELSE LET id == Len(h) + 1
             h1 == [Append(h, NewNode(p, "", FALSE)) EXCEPT ![p].list = Append(@, id)]
         IN FillItems(Fill(h1, id, Head(its)), p, Tail(its))
FillMap(h, p, c) ==
    IF c = <<>> THEN h
    ELSE LET key == c[1][1]
             n == c[1][2]
             s == Slot(h[p], key)
             old == IF s = 0 THEN 0 ELSE h[p].dict[s][2]
             id == Len(h) + 1
             new(val, term) == SetSlot(Append(h, NewNode(p, val, term)), p, key, id)
         IN FillMap(CASE n.k = "s" -> new(n.t, TRUE)
                      [] n.k = "l" -> Fill(new("", FALSE), id, n)
                      [] n.k = "m" -> IF old = 0 \/ h[old].term THEN Fill(new("", FALSE), id, n) ELSE Fill(h, old, n),
                    p, Tail(c))

------------------------------------------------------------------------------
Init == docs = <<>> /\ tree = Empty /\ heap = <<NewNode(0, "root", FALSE)>>
Read == /\ Len(docs) < MaxDocs
        /\ \E d \in Docs : /\ Compatible(tree, d)
                           /\ docs' = Append(docs, d)
                           /\ tree' = Merge(tree, d)
                           /\ heap' = Fill(heap, 1, d)
Next == Read
Spec == Init /\ [][Next]_vars

(* the document a heap node stands for *)
RECURSIVE Stands(_, _)
Stands(id, n) ==
    LET x == heap[id] IN
    CASE n.k = "s" -> x.term /\ x.val = n.t /\ x.list = <<>> /\ x.dict = <<>>
      [] n.k = "l" -> ~x.term /\ x.dict = <<>> /\ Len(x.list) = Len(n.i) /\ \A i \in 1 .. Len(n.i) : Stands(x.list[i], n.i[i])
      [] n.k = "m" -> /\ ~x.term /\ x.list = <<>>
                      /\ {x.dict[i][1] : i \in 1 .. Len(x.dict)} = Keys(n) /\ Len(x.dict) = Cardinality(Keys(n))
                      /\ \A i \in 1 .. Len(x.dict) : Stands(x.dict[i][2], Child(n, x.dict[i][1]))
P03 == Stands(1, tree)

(* paths to scalars of a document *)
RECURSIVE Leaves(_)
Leaves(n) == IF ~IsMap(n) THEN {<<<<>>, n>>}
             ELSE UNION {{<<<<key>> \o l[1], l[2]>> : l \in Leaves(Child(n, key))} : key \in Keys(n)}
RECURSIVE Lookup(_, _)
Lookup(id, ks) == IF ks = <<>> THEN id
                  ELSE LET s == Slot(heap[id], Head(ks)) IN IF s = 0 THEN 0 ELSE Lookup(heap[id].dict[s][2], Tail(ks))
P01 == docs # <<>> => \A l \in Leaves(docs[Len(docs)]) : LET id == Lookup(1, l[1]) IN id # 0 /\ Stands(id, l[2])
P04 == \A d \in 1 .. Len(docs) : \A l \in Leaves(docs[d]) :
          LET id == Lookup(1, l[1]) IN
          /\ id # 0
          /\ (\A e \in d + 1 .. Len(docs) : ~Leads(docs[e], l[1])) => Stands(id, l[2])
(* P02: nothing else can be found *)
P02 == \A id \in 1 .. Len(heap) : heap[id].term => heap[id].dict = <<>>

RECURSIVE NameOf(_)
NameOf(id) == IF heap[id].parent = 0 THEN <<>>
              ELSE LET p == heap[id].parent
                       I == {i \in 1 .. Len(heap[p].dict) : heap[p].dict[i][2] = id}
                   IN NameOf(p) \o (IF I = {} THEN <<>> ELSE <<heap[p].dict[CHOOSE i \in I : TRUE][1]>>)
RECURSIVE Reached(_)
Reached(id) == {id} \cup UNION {Reached(heap[id].dict[i][2]) : i \in 1 .. Len(heap[id].dict)}
P05 == \A id \in Reached(1) : Lookup(1, NameOf(id)) = id

(* PropNode::dump, whose dictionary is ordered *)
Order == <<"a", "b">>
RECURSIVE HeapDump(_, _), Written(_, _)
Written(id, ind) == IF heap[id].term THEN heap[id].val \o "\n" ELSE "\n" \o HeapDump(id, ind)
HeapDump(id, ind) ==
    LET x == heap[id] IN
    IF x.term THEN ind \o x.val \o "\n"
    ELSE LET items == IF x.list = <<>> THEN ""
                      ELSE "<<<PROPLIST>>>\n" \o Cat([i \in 1 .. Len(x.list) |->
                              IF heap[x.list[i]].term THEN ind \o heap[x.list[i]].val \o "\n" ELSE HeapDump(x.list[i], ind \o "  ")])
             ks == Sorted({x.dict[i][1] : i \in 1 .. Len(x.dict)}, Order)
             dict == IF ks = <<>> THEN ""
                     ELSE "<<<DICTIONARY>>>\n" \o Cat([i \in 1 .. Len(ks) |->
                              ind \o ks[i] \o ":  " \o Written(x.dict[Slot(x, ks[i])][2], ind \o "  ")])
         IN items \o dict
P07 == HeapDump(1, "") = Dump(tree, "", Order)

Emit == (Gen /\ Len(docs) = MaxDocs) => PrintT(<<"GEN", ToJson(docs)>>)
=============================================================================
