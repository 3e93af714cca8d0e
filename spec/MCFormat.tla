------------------------------ MODULE MCFormat ------------------------------
(***************************************************************************)
(* Exhaustive model of SoDa::Format over short format strings.             *)
(*                                                                         *)
(* The object is modelled at the level of its code: a character scanner    *)
(* with the modes NORM, SAW_PC and ACC_FLDNUM builds the segments, one     *)
(* character per step; insertField fills the segments; reset scans again.  *)
(* TLC checks that the scanner always agrees with the declarative grammar  *)
(* Parse of Format.tla, and the properties F01 and F02 as invariants and   *)
(* action properties over all histories.  In generator mode the histories  *)
(* are printed and replayed into the real class.                           *)
(***************************************************************************)
EXTENDS Format, TLC, Json

CONSTANTS Alphabet, MaxLen, Values, MaxOps, Gen

VARIABLES fmt,                       \* the format string (chosen first)
          phase,                     \* "choose", "scan", "use"
          pos, mode, cur, num, out,  \* the scanner
          k,                         \* number of the next value
          given,                     \* history: values supplied since the last reset
          hist                       \* history: operations, for the generator
vars == <<fmt, phase, pos, mode, cur, num, out, k, given, hist>>

Init == /\ fmt = "" /\ phase = "choose"
        /\ pos = 1 /\ mode = "NORM" /\ cur = "" /\ num = 0 /\ out = <<>>
        /\ k = 0 /\ given = <<>> /\ hist = <<>>

Choose == /\ phase = "choose"
          /\ \/ /\ Len(fmt) < MaxLen
                /\ \E c \in Alphabet : fmt' = fmt \o c
                /\ UNCHANGED <<phase, hist>>
             \/ /\ phase' = "scan" /\ fmt' = fmt
                /\ hist' = <<[op |-> "new", fmt |-> fmt]>>
          /\ UNCHANGED <<pos, mode, cur, num, out, k, given>>

Push(seq, t) == IF t = "" THEN seq ELSE Append(seq, Lit(t))

(* one character, exactly as Format::initialScan handles it *)
ScanChar ==
    /\ phase = "scan" /\ pos <= Len(fmt)
    /\ LET c == Ch(fmt, pos) IN
       CASE mode = "NORM" ->
              IF c = "%" THEN mode' = "SAW_PC" /\ UNCHANGED <<cur, num, out>>
              ELSE cur' = cur \o c /\ UNCHANGED <<mode, num, out>>
         [] mode = "SAW_PC" ->
              IF c \in Digits
              THEN /\ out' = Push(out, cur) /\ cur' = ""
                   /\ mode' = "ACC_FLDNUM" /\ num' = DigitVal[c]
              ELSE /\ cur' = cur \o "%" \o (IF c = "%" THEN "" ELSE c)
                   /\ mode' = "NORM" /\ UNCHANGED <<num, out>>
         [] mode = "ACC_FLDNUM" ->
              IF c \in Digits THEN num' = 10 * num + DigitVal[c] /\ UNCHANGED <<mode, cur, out>>
              ELSE /\ out' = Append(out, Open(num))
                   /\ mode' = IF c = "%" THEN "SAW_PC" ELSE "NORM"
                   /\ cur' = IF c = "%" THEN "" ELSE c
                   /\ UNCHANGED num
    /\ pos' = pos + 1
    /\ UNCHANGED <<fmt, phase, k, given, hist>>

ScanEnd ==
    /\ phase = "scan" /\ pos = Len(fmt) + 1
    /\ out' = CASE mode = "SAW_PC" -> Push(out, cur \o "%")
                [] mode = "NORM" -> Push(out, cur)
                [] mode = "ACC_FLDNUM" -> Append(out, Open(num))
    /\ phase' = "use" /\ pos' = 1 /\ mode' = "NORM" /\ cur' = "" /\ num' = 0
    /\ k' = 0 /\ given' = <<>>
    /\ UNCHANGED <<fmt, hist>>

Highest == LET ns == {out[i].n + 1 : i \in {j \in 1 .. Len(out) : ~out[j].lit}} \cup {0}
           IN CHOOSE m \in ns : \A x \in ns : x <= m
Ops == Len(hist) - 1

AddValue == /\ phase = "use" /\ Ops < MaxOps /\ k < Highest
            /\ \E v \in Values :
                 /\ out' = Fill(out, k, v)
                 /\ k' = k + 1
                 /\ given' = Append(given, v)
                 /\ hist' = Append(hist, [op |-> "addS", v |-> v, w |-> 0])
            /\ UNCHANGED <<fmt, phase, pos, mode, cur, num>>

ResetIt == /\ phase = "use" /\ Ops < MaxOps /\ given # <<>>
           /\ out' = <<>> /\ phase' = "scan"
           /\ hist' = Append(hist, [op |-> "reset"])
           /\ UNCHANGED <<fmt, pos, mode, cur, num, k, given>>

Next == Choose \/ ScanChar \/ ScanEnd \/ AddValue \/ ResetIt
Spec == Init /\ [][Next]_vars /\ WF_vars(ScanChar \/ ScanEnd)

---------------------------------------------------------------------------
(* merge neighbouring literals, so that segment lists can be compared *)
RECURSIVE Norm(_)
Norm(s) == IF Len(s) < 2 THEN s
           ELSE IF s[1].lit /\ s[2].lit
                THEN Norm(<<Lit(s[1].txt \o s[2].txt)>> \o SubSeq(s, 3, Len(s)))
                ELSE <<s[1]>> \o Norm(Tail(s))
DropEmpty(s) == SelectSeq(s, LAMBDA g : ~(g.lit /\ g.txt = ""))

RECURSIVE FillAll(_, _, _)
FillAll(s, vs, i) == IF i > Len(vs) THEN s ELSE FillAll(Fill(s, i - 1, vs[i]), vs, i + 1)

(* F01: what the object shows is the declaratively parsed format string    *)
(* with every supplied value in all its places and nothing else changed    *)
Substitution == phase = "use" =>
    DropEmpty(Norm(out)) = DropEmpty(Norm(FillAll(Parse(fmt), given, 1)))
(* F02 *)
StrictIffOpen == phase = "use" =>
    (Unfilled(out) <=> \E i \in 1 .. Len(Parse(fmt)) :
                          ~Parse(fmt)[i].lit /\ Parse(fmt)[i].n >= Len(given))
ResetRestores == [][(phase = "scan" /\ phase' = "use") =>
                      DropEmpty(Norm(out')) = DropEmpty(Norm(Parse(fmt)))]_vars
(* the scan always comes to its end *)
Terminates == (phase = "scan") ~> (phase = "use")

(* generator: print every maximal history *)
Emit == (Gen /\ phase = "use" /\ (Ops = MaxOps \/ k >= Highest)) => PrintT(<<"GEN", ToJson(hist)>>)
NoHist == <<fmt, phase, pos, mode, cur, num, out, k, given, Ops>>
=============================================================================
