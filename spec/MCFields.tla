------------------------------ MODULE MCFields ------------------------------
(***************************************************************************)
(* Model check of the field renderers of Format.tla against independent    *)
(* characterisations in integer arithmetic, exhaustively over small        *)
(* values.  A state is one choice of arguments.                            *)
(***************************************************************************)
EXTENDS Format, TLC
CONSTANTS MaxV, Kinds

VARIABLES kind, v, w, sep, n
vars == <<kind, v, w, sep, n>>

(* the arguments are chosen first and then the value, so that TLC's workers share the work *)
Init == \/ kind \in Kinds \cap {"int"} /\ v = 0 /\ w \in {0, 3, 7} /\ sep \in {"", ","} /\ n = 0
        \/ kind \in Kinds \cap {"uns"} /\ v = 0 /\ w \in {0, 2, 7} /\ sep \in {"", "_"} /\ n \in 1 .. 4
        \/ kind \in Kinds \cap {"eng"} /\ v = 0 /\ w \in {-5, -2, -1, 0, 1, 4} /\ sep = "." /\ n \in 1 .. 6
        \/ kind \in Kinds \cap {"str"} /\ v = 0 /\ w \in -6 .. 6 /\ sep \in {"", "%0"} /\ n = 0
        \/ kind \in Kinds \cap {"fix"} /\ v = 0 /\ w \in {-4, -2, -1, 0, 1} /\ sep = "," /\ n \in 0 .. 4
Next == /\ v = 0
        /\ v' \in (1 .. MaxV) \cup (990 .. 1010) \cup {9949, 9950, 9994, 9995, 9996, 9999, 10000}
                   \cup (IF kind = "int" THEN (-MaxV .. -1) \cup (-1010 .. -990) ELSE {})
        /\ UNCHANGED <<kind, w, sep, n>>
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
IntText(x) == IF x < 0 THEN "-" \o NatText(-x) ELSE NatText(x)
Only(s, ok(_)) == Cat([i \in 1 .. Len(s) |-> IF ok(Ch(s, i)) THEN Ch(s, i) ELSE ""])
DigitsOf(s) == Only(s, LAMBDA c : c \in Digits)

(* separators stand exactly at every k-th digit from the right *)
Grouped(s, k, c) == \A i \in 1 .. Len(s) :
    LET right == Len(DigitsOf(From(s, i + 1)))
    IN IF Ch(s, i) = c
       THEN /\ right > 0 /\ right % k = 0 /\ i > 1 /\ Ch(s, i - 1) # c
            /\ \E j \in 1 .. i - 1 : Ch(s, j) \in Digits
       ELSE (Ch(s, i) \in Digits /\ i > 1 /\ Ch(s, i - 1) \in Digits) => (right + 1) % k # 0

IntOK == kind = "int" =>
    LET t == RenderI(IntText(v), w, sep, "")
        c == Only(t, LAMBDA x : x # " ")
        m == IF v < 0 THEN From(c, 2) ELSE c
    IN /\ TextNat(DigitsOf(t)) = Abs(v)
       /\ (Ch(c, 1) = "-") = (v < 0)
       /\ Len(t) >= w /\ (Len(t) > w => Ch(t, 1) # " ")
       /\ t = Rep(" ", Len(t) - Len(c)) \o c
       /\ (sep # "" => Grouped(m, 3, sep))
       /\ (sep = "" => \A i \in 1 .. Len(m) : Ch(m, i) \in Digits)
       /\ RenderI(IntText(v), w, sep, "0") = Rep("0", Len(t) - Len(c)) \o c

RECURSIVE HexText(_)
HexText(x) == IF x < 16 THEN DigitChar(x) ELSE HexText(x \div 16) \o DigitChar(x % 16)
RECURSIVE OctVal(_)
OctVal(s) == IF Len(s) = 0 THEN 0 ELSE 8 * OctVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Last(s)]
RECURSIVE HexNum(_)
HexNum(s) == IF Len(s) = 0 THEN 0 ELSE 16 * HexNum(SubSeq(s, 1, Len(s) - 1)) + HexVal[Last(s)]

UnsOK == kind = "uns" =>
    LET h == PadL(HexText(v), 16, "0")
        d == RenderU(h, "d", w, sep, n)
        x == RenderU(h, "x", w, sep, n)
        o == RenderU(h, "o", w, sep, n)
        nosep(s) == Only(s, LAMBDA c : c # sep)
    IN /\ TextNat(DigitsOf(d)) = v /\ Len(d) >= w
       /\ SubSeq(x, 1, 2) = "0x" /\ HexNum(nosep(From(x, 3))) = v /\ Len(nosep(x)) >= w + 2
       /\ OctVal(nosep(o)) = v /\ Len(nosep(o)) >= w /\ Ch(o, 1) = "0"
       /\ (v > 0 => Len(nosep(o)) > 1)
       /\ (sep # "" => /\ Grouped(Only(d, LAMBDA c : c # " "), n, sep)
                       /\ Grouped(MapText(From(x, 3), LAMBDA c : IF c \in HexDigits THEN "7" ELSE c), n, sep)
                       /\ Grouped(From(o, 2), n, sep))
       /\ DigitsOf(d) = HexToDec(HexText(v))
       /\ HexToDec(Rep("f", 16)) = "18446744073709551615"
       /\ HexToOct(Rep("f", 16)) = "1777777777777777777777"

(* the value v * 10^w as a record *)
Val == LET t == NatText(v) IN [kind |-> "num", neg |-> FALSE,
         d |-> LET s == StripTrail(t, "0") IN s, x |-> Len(t) - 1 + w]

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 10 * Pow(k - 1)

EngOK == (kind = "eng" /\ v > 0) =>
    \A t \in EngText(Val, n, ".") :
      LET e == Find("e", t, 1)
          mant == SubSeq(t, 2, e - 1)
          p == Find(".", mant, 1)
          int == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
          frac == IF p = 0 THEN "" ELSE From(mant, p + 1)
          ex == TextNat(From(t, e + 2)) * (IF Ch(t, e + 1) = "-" THEN -1 ELSE 1)
          \* compare v * 10^w with (int.frac) * 10^ex in integers
          lo == Min(w, ex - Len(frac))
          a == v * Pow(w - lo)
          b == TextNat(int \o frac) * Pow(ex - Len(frac) - lo)
          unit == Pow(ex - Len(frac) - lo) * (IF n < Len(int) THEN Pow(Len(int) - n) ELSE 1)
      IN /\ Ch(t, 1) = " " /\ Ch(t, e + 1) \in {"+", "-"}
         /\ TextNat(int) \in 1 .. 999 /\ Ch(int, 1) # "0"
         /\ ex % 3 = 0
         /\ Len(int \o frac) = Max(n, Len(int))
         /\ 2 * Abs(a - b) <= unit

FixOK == (kind = "fix" /\ v > 0) =>
    /\ \A t \in FixText(Val, n, ",") :
         LET p == Find(",", t, 1)
             num == TextNat(DigitsOf(t))
             lo == Min(w, -n)
         IN /\ (n = 0 <=> p = 0) /\ (n > 0 => Len(t) - p = n /\ p > 1)
            /\ 2 * Abs(v * Pow(w - lo) - num * Pow(-n - lo)) <= Pow(-n - lo)
    /\ \A t \in SciText(Val, n, ",") :
         LET e == Find("e", t, 1)
             num == TextNat(DigitsOf(SubSeq(t, 1, e - 1)))
             ex == TextNat(From(t, e + 2)) * (IF Ch(t, e + 1) = "-" THEN -1 ELSE 1)
             lo == Min(w, ex - n)
         IN /\ Ch(t, 1) \in Digits \ {"0"} /\ (n > 0 => Ch(t, 2) = "," /\ e = n + 3)
            /\ 2 * Abs(v * Pow(w - lo) - num * Pow(ex - n - lo)) <= Pow(ex - n - lo)
    /\ \A t \in GenText(Val, n, ",") : \* one of the other two, without trailing zeros
         LET e == Find("e", t, 1)
             m == IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
         IN /\ (Find(",", m, 1) # 0 => Last(m) \in Digits \ {"0"})
            /\ Len(StripZeros(StripTrail(DigitsOf(m), "0"))) <= Max(n, 1)
StrOK == kind = "str" =>
    LET body == NatText(v) \o sep
        t == RenderS(body, w)
        m == Abs(w)
    IN /\ Len(t) = Max(Len(body), m)
       /\ (w > 0 => SubSeq(t, Len(t) - Len(body) + 1, Len(t)) = body)
       /\ (w <= 0 => SubSeq(t, 1, Len(body)) = body)
       /\ Only(t, LAMBDA c : c # " ") = body
       /\ RenderB(TRUE) = "T" /\ RenderB(FALSE) = "F"
=============================================================================
