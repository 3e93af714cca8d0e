------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* SoDa::Format as a state machine.                                        *)
(*                                                                         *)
(* The state of a Format object is the original format string, the list    *)
(* of its segments (literal text or open placeholder) and the number of    *)
(* the next value.  Its transitions are New, Add (one for each kind of     *)
(* value) and Reset; str() is an observation.  The radix separator is a    *)
(* static member, so it is a variable of its own.                          *)
(***************************************************************************)
EXTENDS Text

---------------------------------------------------------------------------
(* Parsing a format string.                                                *)

Lit(t)  == [lit |-> TRUE,  txt |-> t,  n |-> 0]
Open(n) == [lit |-> FALSE, txt |-> "", n |-> n]

RECURSIVE DigitRun(_, _)           \* end (exclusive) of the digits at i
DigitRun(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigitRun(s, i + 1) ELSE i

(* Declarative grammar: the format string is cut into tokens               *)
(*     % digits+   |   %%   |   % other   |   other | % at the end         *)
RECURSIVE ParseAt(_, _)
ParseAt(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF Ch(s, i) # "%" THEN <<Lit(Ch(s, i))>> \o ParseAt(s, i + 1)
    ELSE IF i = Len(s) THEN <<Lit("%")>>
    ELSE IF Ch(s, i + 1) \in Digits
         THEN LET e == DigitRun(s, i + 1)
              IN <<Open(TextNat(SubSeq(s, i + 1, e - 1)))>> \o ParseAt(s, e)
    ELSE IF Ch(s, i + 1) = "%" THEN <<Lit("%")>> \o ParseAt(s, i + 2)
    ELSE <<Lit("%" \o Ch(s, i + 1))>> \o ParseAt(s, i + 2)

Parse(s) == ParseAt(s, 1)

---------------------------------------------------------------------------
(* Observations                                                            *)

SegText(g) == IF g.lit THEN g.txt ELSE "%" \o NatText(g.n)
StrOf(segs) == Cat([i \in 1 .. Len(segs) |-> SegText(segs[i])])
Unfilled(segs) == \E i \in 1 .. Len(segs) : ~segs[i].lit

Fill(segs, k, t) == [i \in 1 .. Len(segs) |->
                       IF ~segs[i].lit /\ segs[i].n = k THEN Lit(t) ELSE segs[i]]

---------------------------------------------------------------------------
(* Integer fields                                                          *)

(* v: decimal text, possibly with a leading "-".  sep, fill: a character   *)
(* or "" for none.                                                         *)
RenderI(v, w, sep, fill) ==
    LET neg == Ch(v, 1) = "-"
        mag == IF neg THEN From(v, 2) ELSE v
        grp == IF sep = "" THEN mag ELSE Group(mag, 3, sep)
    IN PadL((IF neg THEN "-" ELSE "") \o grp, w, IF fill = "" THEN " " ELSE fill)

(* h: the value as hexadecimal digits *)
RenderU(h, fmt, w, sep, k) ==
    LET grp(d) == IF sep = "" THEN d ELSE Group(d, k, sep)
        hex == PadL(StripZeros(h), w, "0")
    IN CASE fmt \in {"x", "h"} -> "0x" \o grp(hex)
         [] fmt \in {"X", "H"} -> "0x" \o grp(MapText(hex, LAMBDA c : HexUpper[c]))
         [] fmt \in {"o", "O"} ->
              LET o == HexToOct(h)
                  p == PadL(IF o = "0" THEN "0" ELSE "0" \o o, w, "0")
              IN IF Len(p) = 1 THEN p ELSE Ch(p, 1) \o grp(From(p, 2))
         [] OTHER -> PadL(grp(HexToDec(h)), w, " ")

---------------------------------------------------------------------------
(* Floating point fields.  A finite non-zero value is a record             *)
(*   [neg, d, x]: d its exact significant decimal digits (first one not 0) *)
(*   value = d[1].d[2]d[3]... * 10^x                                       *)

AllZero(s) == \A i \in 1 .. Len(s) : Ch(s, i) = "0"

(* the roundings of the fraction 0.r to 0 or 1: {0}, {1} or both for a tie *)
(* (or for a distance from a tie of at most slack/1000)                    *)
RoundDir(r, slack) ==
    LET r3 == TextNat(SubSeq(PadR(r, 3, "0"), 1, 3))
        rest == From(r, 4)
        z == AllZero(rest)
    IN IF r3 >= 500 - slack /\ (r3 < 500 + slack \/ (r3 = 500 + slack /\ z))
       THEN {0, 1}
       ELSE IF r3 < 500 THEN {0} ELSE {1}

(* value v rounded to n >= 1 significant digits: set of [d, x] *)
RoundSig(v, n, slack) ==
    LET keep == PadR(SubSeq(v.d, 1, Min(n, Len(v.d))), n, "0")
        up == Incr(keep)
    IN { IF dir = 0 THEN [d |-> keep, x |-> v.x]
         ELSE IF Len(up) > n THEN [d |-> SubSeq(up, 1, n), x |-> v.x + 1]
         ELSE [d |-> up, x |-> v.x] :
            dir \in RoundDir(From(v.d, n + 1), slack) }

(* value v rounded to p places after the point: set of digit strings of    *)
(* round(v * 10^p)                                                         *)
RoundFix(v, p) ==
    LET n == v.x + 1 + p             \* digits kept
    IN IF n < 0 THEN {"0"}
       ELSE IF n = 0 THEN { IF dir = 0 THEN "0" ELSE "1" : dir \in RoundDir(v.d, 0) }
       ELSE LET keep == PadR(SubSeq(v.d, 1, Min(n, Len(v.d))), n, "0")
            IN { IF dir = 0 THEN keep ELSE Incr(keep) : dir \in RoundDir(From(v.d, n + 1), 0) }

(* integer digits i (>= 0) with the point p digits from the right *)
PointAt(i, p, radix) ==
    LET s == PadL(i, p + 1, "0")
    IN IF p = 0 THEN s
       ELSE SubSeq(s, 1, Len(s) - p) \o radix \o SubSeq(s, Len(s) - p + 1, Len(s))

Sign(v) == IF v.neg THEN "-" ELSE ""

ExpText(x) == LET a == NatText(IF x < 0 THEN -x ELSE x)
              IN (IF x < 0 THEN "e-" ELSE "e+") \o PadL(a, 2, "0")

FixText(v, p, radix) == { Sign(v) \o PointAt(i, p, radix) : i \in RoundFix(v, p) }

SciDigits(r, radix) == IF Len(r.d) = 1 THEN r.d ELSE Ch(r.d, 1) \o radix \o From(r.d, 2)
SciText(v, p, radix) == { Sign(v) \o SciDigits(r, radix) \o ExpText(r.x) : r \in RoundSig(v, p + 1, 0) }

(* d.ddd with trailing zeros (and then the point) removed *)
Trimmed(i, p, radix) ==
    LET s == PointAt(i, p, radix)
    IN IF p = 0 THEN s ELSE StripTrail(StripTrail(s, "0"), radix)
GenText(v, p0, radix) ==
    LET p == IF p0 = 0 THEN 1 ELSE p0
    IN { Sign(v) \o
           (IF p > r.x /\ r.x >= -4
            THEN Trimmed(IF r.x >= 0 THEN r.d ELSE r.d, p - 1 - r.x, radix)
            ELSE LET t == [r EXCEPT !.d = LET u == StripTrail(@, "0") IN IF Len(u) = 0 THEN Ch(@, 1) ELSE u]
                 IN SciDigits(t, radix) \o ExpText(r.x)) :
          r \in RoundSig(v, p, 0) }

(* engineering notation, without padding *)
EngSlack(n) == IF n <= 9 THEN 1 ELSE IF n = 10 THEN 10 ELSE 100
EngText(v, n, radix) ==
    { LET m == r.x % 3                         \* digits before the point - 1
          e == r.x - m
          int == PadR(SubSeq(r.d, 1, Min(n, m + 1)), m + 1, "0")
          frac == From(r.d, m + 2)
      IN (IF v.neg THEN "-" ELSE " ") \o int
         \o (IF frac = "" THEN "" ELSE radix \o frac)
         \o (IF e < 0 THEN "e-" ELSE "e+") \o NatText(IF e < 0 THEN -e ELSE e) :
      r \in RoundSig(v, n, EngSlack(n)) }

(* zero in the stream notations *)
ZeroText(fmt, p, radix) ==
    CASE fmt = "f" -> PointAt("0", p, radix)
      [] fmt = "s" -> PointAt("0", p, radix) \o "e+00"
      [] OTHER -> "0"

(* zero in engineering notation: the digits are not laid down, but where    *)
(* the point is                                                             *)
ZeroEng(p, radix) ==
    { sg \o "0" \o (IF k = 0 THEN "" ELSE radix \o Rep("0", k)) \o "e" \o es \o Rep("0", m) :
        sg \in {"", " ", "-"}, k \in (IF p = 1 THEN 0 .. 1 ELSE p - 1 .. p), es \in {"", "+", "-"}, m \in 1 .. 2 }

(* All texts addF may produce.  v is [kind |-> "nan" | "inf" | "zero" |    *)
(* "num", neg, d, x].  Width 0 leaves the padding to the library; in 'e'   *)
(* notation the field may be somewhat wider than asked for.                *)
RenderF(v, fmt, w, p, radix) ==
    LET core == CASE v.kind = "nan" -> {"nan"}
                  [] v.kind = "inf" -> {IF v.neg THEN "-inf" ELSE "inf"}
                  [] v.kind = "zero" -> IF fmt = "e" THEN ZeroEng(p, radix) ELSE {Sign(v) \o ZeroText(fmt, p, radix)}
                  [] fmt = "f" -> FixText(v, p, radix)
                  [] fmt = "s" -> SciText(v, p, radix)
                  [] fmt = "g" -> GenText(v, p, radix)
                  [] fmt = "e" -> EngText(v, p, radix)
        slop == IF w = 0 THEN p + 12 ELSE IF fmt = "e" /\ v.kind \in {"num", "zero"} THEN 6 ELSE 0
    IN UNION { LET m == Max(Len(c), w) IN { PadR(c, m + k, " ") : k \in 0 .. slop } : c \in core }

RenderS(s, w) == IF w < 0 THEN PadR(s, -w, " ") ELSE PadL(s, w, " ")
RenderB(b) == IF b THEN "T" ELSE "F"

(* the set of texts the value of an add event may be rendered as *)
Render(ev, radix) ==
    CASE ev.op = "addI" -> {RenderI(ev.v, ev.w, ev.sep, ev.fill)}
      [] ev.op = "addU" -> {RenderU(ev.v, ev.fmt, ev.w, ev.sep, ev.k)}
      [] ev.op = "addF" -> RenderF(ev.v, ev.fmt, ev.w, ev.p, radix)
      [] ev.op = "addS" -> {RenderS(ev.v, ev.w)}
      [] ev.op = "addC" -> {ev.v}
      [] ev.op = "addB" -> {RenderB(ev.v)}

AddOps == {"addI", "addU", "addF", "addS", "addC", "addB"}
=============================================================================
