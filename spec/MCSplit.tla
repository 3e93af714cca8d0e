------------------------------- MODULE MCSplit -------------------------------
(***************************************************************************)
(* The loops of Split.cxx, one iteration per step, over every string up to *)
(* MaxLen over Alphabet and every delimiter set in DelimSets; they always  *)
(* terminate and agree with the declarative definitions of Split.tla.      *)
(***************************************************************************)
EXTENDS Split, TLC, Json
CONSTANTS Alphabet, MaxLen, DelimSets, Gen

VARIABLES src, pc, w, pos, old, delims, noEmpty, out
vars == <<src, pc, w, pos, old, delims, noEmpty, out>>

Init == /\ src = "" /\ pc = "choose" /\ w = "" /\ pos = 1 /\ old = 1 /\ out = <<>>
        /\ delims \in DelimSets /\ noEmpty \in BOOLEAN

Choose == /\ pc = "choose"
          /\ \/ Len(src) < MaxLen /\ \E c \in Alphabet : src' = src \o c /\ UNCHANGED <<pc, w>>
             \/ pc' = "trimL" /\ w' = src /\ UNCHANGED src
          /\ UNCHANGED <<pos, old, delims, noEmpty, out>>

TrimL == /\ pc = "trimL"
         /\ IF w # "" /\ Ch(w, 1) = " " THEN w' = From(w, 2) /\ UNCHANGED pc
            ELSE pc' = "trimR" /\ UNCHANGED w
         /\ UNCHANGED <<src, pos, old, delims, noEmpty, out>>
TrimR == /\ pc = "trimR"
         /\ IF w # "" /\ Last(w) = " " THEN w' = SubSeq(w, 1, Len(w) - 1) /\ UNCHANGED pc
            ELSE pc' = "inner" /\ UNCHANGED w
         /\ UNCHANGED <<src, pos, old, delims, noEmpty, out>>
Inner == /\ pc = "inner"
         /\ LET p == Find(" ", w, pos) IN
            IF p = 0 THEN pc' = "cut" /\ pos' = 1 /\ UNCHANGED w
            ELSE IF p < Len(w) /\ Ch(w, p + 1) = " "
                 THEN w' = SubSeq(w, 1, p - 1) \o From(w, p + 1) /\ pos' = p /\ UNCHANGED pc
                 ELSE pos' = p + 1 /\ UNCHANGED <<pc, w>>
         /\ UNCHANGED <<src, old, delims, noEmpty, out>>

FirstOf(D, s, k) == LET m == {i \in k .. Len(s) : Ch(s, i) \in D}
                    IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j

Cut == /\ pc = "cut"
       /\ LET p == FirstOf(CharsOf(delims), w, old) IN
          IF p = 0
          THEN /\ out' = IF old <= Len(w) THEN Append(out, From(w, old)) ELSE out
               /\ pc' = "done" /\ UNCHANGED old
          ELSE LET t == SubSeq(w, old, p - 1)
               IN /\ out' = IF noEmpty /\ t = "" THEN out ELSE Append(out, t)
                  /\ old' = p + 1 /\ UNCHANGED pc
       /\ UNCHANGED <<src, w, pos, delims, noEmpty>>

Next == Choose \/ TrimL \/ TrimR \/ Inner \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(TrimL \/ TrimR \/ Inner \/ Cut)

U01 == /\ (pc \in {"cut", "done"} => w = Squash(src))
       /\ (pc = "done" => LET q == Squash(src) IN
             /\ Squash(q) = q /\ ~IsIn("  ", q)
             /\ (q # "" => Ch(q, 1) # " " /\ Last(q) # " ")
             \* the other characters stay, in order
             /\ Cat(Pieces(q, LAMBDA c : c = " ")) = Cat(Pieces(src, LAMBDA c : c = " ")))

RECURSIVE Count(_, _)
Count(s, D) == IF s = "" THEN 0 ELSE (IF Ch(s, 1) \in D THEN 1 ELSE 0) + Count(From(s, 2), D)

U02 == pc = "done" =>
    LET D == CharsOf(delims)
        q == Squash(src)
        undelim(s) == Cat(Pieces(s, LAMBDA c : c \in D))
    IN /\ out = SplitOf(src, delims, noEmpty)
       /\ \A i \in 1 .. Len(out) : Count(out[i], D) = 0
       /\ Cat(out) = undelim(q)                          \* nothing is lost
       /\ (noEmpty => \A i \in 1 .. Len(out) : out[i] # "")
       /\ (~noEmpty => Len(out) = Count(q, D) + (IF q = "" \/ Last(q) \in D THEN 0 ELSE 1))

Terminates == (pc # "choose") ~> (pc = "done")

Emit == (Gen /\ pc = "done") => PrintT(<<"GEN", ToJson([s |-> src, d |-> delims, n |-> noEmpty])>>)
=============================================================================
