-------------------------------- MODULE Split --------------------------------
(***************************************************************************)
(* squashSpaces, split and splitVec (Utils.hxx, Split.cxx), declaratively. *)
(***************************************************************************)
EXTENDS Text

(* the pieces between the characters of s that satisfy cut(_) : one more piece than cuts *)
Pieces(s, cut(_)) ==
    LET ps == {i \in 1 .. Len(s) : cut(Ch(s, i))}
        RECURSIVE Go(_, _)
        Go(i, from) ==      \* look at position i, the current piece started at from
            IF i > Len(s) THEN <<From(s, from)>>
            ELSE IF i \in ps THEN <<SubSeq(s, from, i - 1)>> \o Go(i + 1, i + 1)
            ELSE Go(i + 1, from)
    IN Go(1, 1)

NonEmpty(ps) == SelectSeq(ps, LAMBDA p : p # "")

RECURSIVE Join(_, _)
Join(ps, c) == IF ps = <<>> THEN "" ELSE IF Len(ps) = 1 THEN ps[1]
               ELSE ps[1] \o c \o Join(Tail(ps), c)

(* U01: the words of s, a word being a longest run of anything but spaces, joined by one space *)
Squash(s) == Join(NonEmpty(Pieces(s, LAMBDA c : c = " ")), " ")

CharsOf(d) == {Ch(d, i) : i \in 1 .. Len(d)}

(* U02 *)
SplitOf(s, delims, noEmpty) ==
    LET D == CharsOf(delims)
        ps == Pieces(Squash(s), LAMBDA c : c \in D)
        qs == IF ps[Len(ps)] = "" THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
    IN IF noEmpty THEN NonEmpty(ps) ELSE qs
=============================================================================
