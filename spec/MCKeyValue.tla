----------------------------- MODULE MCKeyValue -----------------------------
(***************************************************************************)
(* O08: parseKeyValue, statement by statement (split at the commas,        *)
(* squashSpaces, find '='), over every short text, against Options!Items.  *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS Pieces1, MaxPieces, Gen
NoReal(t) == ""
INSTANCE Options WITH RealText <- NoReal
SP == INSTANCE Split

VARIABLES text, np, phase, items, c
vars == <<text, np, phase, items, c>>

NT == [kind |-> "none"]
Opts == << [name |-> "a", ab |-> "a", shape |-> "def", type |-> "string", dflt |-> "d", doc |-> "", err |-> "", test |-> NT],
           [name |-> "b", ab |-> "b", shape |-> "vec", type |-> "int", dflt |-> "", doc |-> "", err |-> "", test |-> NT],
           [name |-> "f", ab |-> "f", shape |-> "flag", type |-> "bool", dflt |-> "0", doc |-> "", err |-> "", test |-> NT] >>
S0 == Fresh(Opts, <<"", <<>>, "">>)

Init == text = "" /\ np = 0 /\ phase = "write" /\ items = <<>> /\ c = Begin(S0)
Write == /\ phase = "write" /\ np < MaxPieces
         /\ \E p \in Pieces1 : text' = text \o p
         /\ np' = np + 1 /\ UNCHANGED <<phase, items, c>>
Split == /\ phase = "write" /\ text # ""
         /\ items' = SP!SplitOf(text, ",", FALSE) /\ phase' = "items"
         /\ UNCHANGED <<text, np, c>>
One == /\ phase = "items" /\ items # <<>> /\ c.why = ""
       /\ LET kv == SP!Squash(Head(items))
              e == Find("=", kv, 1)
              key == IF e = 0 THEN kv ELSE SubSeq(kv, 1, e - 1)
              i == Only1(ByLong(Opts, key))
          IN c' = IF kv = "" THEN c
                  ELSE IF key = "help" THEN Stop(c, "help", key, 0)
                  ELSE IF i = 0 THEN Stop(c, "unknown", key, 0)
                  ELSE IF Opts[i].shape = "flag" \/ e = 0
                       THEN IF Opts[i].shape = "flag" THEN Appear(Opts, c, i) ELSE Present(c, i)
                  ELSE Give(Opts, c, i, From(kv, e + 1))
       /\ items' = Tail(items) /\ UNCHANGED <<text, np, phase>>
Finish == /\ phase = "items" /\ (items = <<>> \/ c.why # "") /\ phase' = "done"
          /\ UNCHANGED <<text, np, items, c>>
Next == Write \/ Split \/ One \/ Finish
Spec == Init /\ [][Next]_vars
\* runs of blanks are squashed before the items are read, so they are outside the comparison
O08 == (phase = "done" /\ ~IsIn("  ", text)) => c = Items(Opts, S0, Commas(text))
Emit == (Gen /\ phase = "write" /\ ~IsIn("  ", text)) => PrintT(<<"GEN", ToJson([text |-> text])>>)
=============================================================================
