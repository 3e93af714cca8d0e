------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Threads that look up paths in one tree which nobody changes.  A lookup  *)
(* goes down the tree one key at a time.  Each gets the answer it would    *)
(* get alone (C02: Alone), and the tree is as before (Untouched).          *)
(*                                                                         *)
(* Way = "own"      the place reached is a local variable                  *)
(*       "cursor"   the place reached is kept in the tree                  *)
(*       "memo"     the last path and its answer are kept in the tree,     *)
(*                  one after the other                                    *)
(*       "vivify"   a missing key is made while looking, and the empty     *)
(*                  node it leads to is removed when the lookup ends       *)
(* The last three answer correctly when one thread asks; TLC shows that    *)
(* they do not when several ask.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Paths, Calls, Way

(* the tree: the paths that lead to a node, and the text there *)
Doc == << >> :> "" @@ <<"a">> :> "" @@ <<"a", "b">> :> "1" @@ <<"a", "c">> :> "2" @@ <<"b">> :> "3"
All == {<<"a", "b">>, <<"a", "c">>, <<"b">>, <<"a">>, <<"c">>, <<"a", "a">>, <<"b", "a">>}
Few == {<<"a", "b">>, <<"a", "c">>, <<"c">>}
None == "none"
Alone1(p) == IF p \in DOMAIN Doc THEN Doc[p] ELSE None

VARIABLES tree,       \* path |-> text
          pc,         \* per thread: "out", "down", "take", "note"
          ask,        \* per thread: the path asked for
          at,         \* per slot: the place reached
          made,       \* per thread: the nodes it made
          key, val,   \* the memo
          ans,        \* per thread: the answer
          left,       \* per thread: calls still to make
          wrong

vars == <<tree, pc, ask, at, made, key, val, ans, left, wrong>>
Nobody == "nobody"
Slots == Threads \cup {Nobody}
S(t) == IF Way = "cursor" THEN Nobody ELSE t

Init == /\ tree = Doc
        /\ pc = [t \in Threads |-> "out"]
        /\ ask = [t \in Threads |-> << >>]
        /\ at = [t \in Slots |-> << >>]
        /\ made = [t \in Threads |-> {}]
        /\ key = <<"b">> /\ val = "3"
        /\ ans = [t \in Threads |-> None]
        /\ left = [t \in Threads |-> Calls]
        /\ wrong = {}

Call(t) == /\ pc[t] = "out" /\ left[t] > 0
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ at' = [at EXCEPT ![S(t)] = << >>]
           /\ \E p \in Paths :
                /\ ask' = [ask EXCEPT ![t] = p]
                /\ pc' = [pc EXCEPT ![t] = IF Way = "memo" /\ key = p THEN "recall" ELSE "down"]
           /\ UNCHANGED <<tree, made, key, val, ans, wrong>>

Recall(t) == /\ pc[t] = "recall"
             /\ ans' = [ans EXCEPT ![t] = val]
             /\ pc' = [pc EXCEPT ![t] = "take"]
             /\ UNCHANGED <<tree, ask, at, made, key, val, left, wrong>>

Down(t) ==
  /\ pc[t] = "down"
  /\ LET here == at[S(t)]  p == ask[t]  n == Len(here)
     IN IF n >= Len(p)
        THEN /\ ans' = [ans EXCEPT ![t] = IF here \in made[t] \/ here \notin DOMAIN tree THEN None ELSE tree[here]]
             /\ pc' = [pc EXCEPT ![t] = IF Way = "memo" THEN "note" ELSE "take"]
             /\ UNCHANGED <<tree, at, made>>
        ELSE LET next == Append(here, p[n + 1])
             IN IF next \in DOMAIN tree
                THEN at' = [at EXCEPT ![S(t)] = next] /\ UNCHANGED <<tree, pc, ans, made>>
                ELSE IF Way = "vivify"
                THEN /\ tree' = tree @@ next :> ""
                     /\ made' = [made EXCEPT ![t] = @ \cup {next}]
                     /\ at' = [at EXCEPT ![S(t)] = next]
                     /\ UNCHANGED <<pc, ans>>
                ELSE /\ ans' = [ans EXCEPT ![t] = None]
                     /\ pc' = [pc EXCEPT ![t] = IF Way = "memo" THEN "note" ELSE "take"]
                     /\ UNCHANGED <<tree, at, made>>
  /\ UNCHANGED <<ask, key, val, left, wrong>>

Note(t) == /\ pc[t] = "note"
           /\ key' = ask[t]
           /\ pc' = [pc EXCEPT ![t] = "note2"]
           /\ UNCHANGED <<tree, ask, at, made, val, ans, left, wrong>>
Note2(t) == /\ pc[t] = "note2"
            /\ val' = ans[t]
            /\ pc' = [pc EXCEPT ![t] = "take"]
            /\ UNCHANGED <<tree, ask, at, made, key, ans, left, wrong>>

Take(t) == /\ pc[t] = "take"
           /\ wrong' = IF ans[t] = Alone1(ask[t]) THEN wrong ELSE wrong \cup {<<t, ask[t], ans[t]>>}
           /\ tree' = [p \in DOMAIN tree \ made[t] |-> tree[p]]
           /\ made' = [made EXCEPT ![t] = {}]
           /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ UNCHANGED <<ask, at, key, val, ans, left>>

Step(t) == Call(t) \/ Recall(t) \/ Down(t) \/ Note(t) \/ Note2(t) \/ Take(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Alone == wrong = {}
Untouched == (\A t \in Threads : pc[t] = "out") => tree = Doc
Ends == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "out")
=============================================================================
