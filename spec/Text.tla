-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings and decimal digits.  TLC treats a string as a sequence of       *)
(* characters for Len, SubSeq and \o, so a "character" here is a string    *)
(* of length one.  All arithmetic on big numbers is done on digit strings  *)
(* because TLC's integers have 32 bits.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Last(s) == Ch(s, Len(s))
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in Digits |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
HexDigits == Digits \cup {"a","b","c","d","e","f"}
HexVal == [c \in HexDigits |->
    CASE c \in Digits -> DigitVal[c]
      [] c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12
      [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
HexUpper == [c \in HexDigits |->
    CASE c \in Digits -> c
      [] c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C"
      [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F"]
DigitChar(n) == SubSeq("0123456789abcdef", n + 1, n + 1)

(* n >= 0 as a decimal string *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN DigitChar(n) ELSE NatText(n \div 10) \o DigitChar(n % 10)

(* a decimal string (at most nine digits) as a number *)
RECURSIVE TextNat(_)
TextNat(s) == IF Len(s) = 0 THEN 0
              ELSE 10 * TextNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Last(s)]

AllDigits(s) == \A i \in 1 .. Len(s) : Ch(s, i) \in Digits

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN ""
             ELSE IF n = 1 THEN c
             ELSE LET h == Rep(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c

PadL(s, w, c) == Rep(c, w - Len(s)) \o s
PadR(s, w, c) == s \o Rep(c, w - Len(s))

(* join a sequence of strings *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN ""
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET m == Len(ss) \div 2
                IN Cat(SubSeq(ss, 1, m)) \o Cat(SubSeq(ss, m + 1, Len(ss)))

(* apply f to every character *)
MapText(s, f(_)) == Cat([i \in 1 .. Len(s) |-> f(Ch(s, i))])

(* is t a substring of s ? *)
IsIn(t, s) == \/ Len(t) = 0
              \/ \E i \in 1 .. (Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

(* position of the first occurrence of t in s at or after k, 0 if none *)
RECURSIVE Find(_, _, _)
Find(t, s, k) == IF k + Len(t) - 1 > Len(s) THEN 0
                 ELSE IF SubSeq(s, k, k + Len(t) - 1) = t THEN k
                 ELSE Find(t, s, k + 1)

(* put sep between groups of k digits, counted from the right *)
RECURSIVE Group(_, _, _)
Group(s, k, sep) == IF Len(s) <= k THEN s
                    ELSE Group(SubSeq(s, 1, Len(s) - k), k, sep) \o sep
                         \o SubSeq(s, Len(s) - k + 1, Len(s))

RECURSIVE StripZeros(_)          \* leading zeros, but keep one digit
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s

RECURSIVE StripTrail(_, _)       \* trailing characters c
StripTrail(s, c) == IF Len(s) > 0 /\ Last(s) = c THEN StripTrail(SubSeq(s, 1, Len(s) - 1), c) ELSE s

(* digit strings of any length: 16 * s + d, in decimal *)
RECURSIVE MulAdd16(_, _)
MulAdd16(s, carry) ==
    IF Len(s) = 0 THEN (IF carry = 0 THEN "" ELSE NatText(carry))
    ELSE LET t == 16 * DigitVal[Last(s)] + carry
         IN MulAdd16(SubSeq(s, 1, Len(s) - 1), t \div 10) \o DigitChar(t % 10)

(* a hexadecimal digit string as a decimal digit string *)
RECURSIVE HexToDec(_)
HexToDec(h) == IF Len(h) = 0 THEN "0"
               ELSE StripZeros(MulAdd16(HexToDec(SubSeq(h, 1, Len(h) - 1)), HexVal[Last(h)]))

(* a hexadecimal digit string as an octal digit string without leading zeros *)
Bits(h) == [i \in 1 .. 4 * Len(h) |->
              (HexVal[Ch(h, (i + 3) \div 4)] \div (CASE (i - 1) % 4 = 0 -> 8 [] (i - 1) % 4 = 1 -> 4
                                                     [] (i - 1) % 4 = 2 -> 2 [] OTHER -> 1)) % 2]
HexToOct(h) ==
    LET b == Bits(h)
        n == Len(b)
        bit(k) == IF k < 1 THEN 0 ELSE b[k]      \* k counted from the left
        m == (n + 2) \div 3
    IN StripZeros(Cat([j \in 1 .. m |->
          LET r == n - 3 * (m - j) IN DigitChar(4 * bit(r - 2) + 2 * bit(r - 1) + bit(r))]))

(* digit string + 1; may grow by one digit *)
RECURSIVE Incr(_)
Incr(s) == IF Len(s) = 0 THEN "1"
           ELSE IF Last(s) = "9" THEN Incr(SubSeq(s, 1, Len(s) - 1)) \o "0"
           ELSE SubSeq(s, 1, Len(s) - 1) \o DigitChar(DigitVal[Last(s)] + 1)

(* compare digit strings without leading zeros *)
RECURSIVE DigLeqSame(_, _)
DigLeqSame(a, b) == IF Len(a) = 0 THEN TRUE
                    ELSE IF Ch(a, 1) = Ch(b, 1) THEN DigLeqSame(From(a, 2), From(b, 2))
                    ELSE DigitVal[Ch(a, 1)] < DigitVal[Ch(b, 1)]
DigLeq(a, b) == \/ Len(a) < Len(b)
                \/ Len(a) = Len(b) /\ DigLeqSame(a, b)
=============================================================================
