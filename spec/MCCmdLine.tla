------------------------------ MODULE MCCmdLine ------------------------------
(***************************************************************************)
(* O06: the scanner of Options::buildTokenList(string), one character per  *)
(* step, over every way of writing a short list of tokens as one string    *)
(* (white space between, before and after; quotes where needed or not).    *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS TokChars, MaxTokLen, MaxToks, Gaps, Gen
NoReal(t) == ""
INSTANCE Options WITH RealText <- NoReal

VARIABLES toks, text, phase, pos, cur, inq, out
vars == <<toks, text, phase, pos, cur, inq, out>>

RECURSIVE StringsUpTo(_)
StringsUpTo(k) == IF k = 0 THEN {""} ELSE LET S == StringsUpTo(k - 1) IN S \cup {s \o c : s \in S, c \in TokChars}
Tokens == StringsUpTo(MaxTokLen)
NeedsQuote(t) == t = "" \/ \E i \in 1 .. Len(t) : Ch(t, i) \in White

Init == toks = <<>> /\ text = "" /\ phase = "write" /\ pos = 1 /\ cur = "" /\ inq = FALSE /\ out = <<>>

Write == /\ phase = "write" /\ Len(toks) < MaxToks
         /\ \E t \in Tokens, g \in Gaps, q \in BOOLEAN :
              /\ NeedsQuote(t) => q
              /\ (toks # <<>> => g # "")
              /\ toks' = Append(toks, t)
              /\ text' = text \o g \o (IF q THEN "\"" \o t \o "\"" ELSE t)
         /\ UNCHANGED <<phase, pos, cur, inq, out>>
Written == /\ phase = "write" /\ phase' = "scan"
           /\ \E g \in Gaps : text' = text \o g
           /\ UNCHANGED <<toks, pos, cur, inq, out>>
Scan == /\ phase = "scan" /\ pos <= Len(text)
        /\ LET ch == Ch(text, pos) IN
           IF ch \in White
           THEN IF inq THEN cur' = cur \o ch /\ UNCHANGED <<out, inq>>
                ELSE /\ out' = IF cur # "" THEN Append(out, cur) ELSE out
                     /\ cur' = "" /\ UNCHANGED inq
           ELSE IF ch = "\""
           THEN IF inq THEN out' = Append(out, cur) /\ cur' = "" /\ inq' = FALSE
                ELSE inq' = TRUE /\ UNCHANGED <<cur, out>>
           ELSE cur' = cur \o ch /\ UNCHANGED <<out, inq>>
        /\ pos' = pos + 1 /\ UNCHANGED <<toks, text, phase>>
Finish == /\ phase = "scan" /\ pos = Len(text) + 1
          /\ out' = IF cur # "" THEN Append(out, cur) ELSE out
          /\ phase' = "done" /\ UNCHANGED <<toks, text, pos, cur, inq>>
Next == Write \/ Written \/ Scan \/ Finish
Spec == Init /\ [][Next]_vars
O06 == phase = "done" => out = toks /\ Words(text) = toks
Emit == (Gen /\ phase = "done") => PrintT(<<"GEN", ToJson([text |-> text, toks |-> toks])>>)
=============================================================================
