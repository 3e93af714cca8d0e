------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* SoDa::Options.  The command line is read by a machine that looks at one *)
(* token per step; the machine's state is what a program can observe later *)
(* (targets, presence, positional arguments) plus the option that is still *)
(* waiting for its value.                                                  *)
(*                                                                         *)
(* An option is a record                                                   *)
(*   name, ab   long name and one character short name                     *)
(*   shape      "def" scalar with default, "nodef" scalar without,         *)
(*              "vec" vector, "flag"                                       *)
(*   type       "int" "short" "long" "llong" "double" "unsigned" "ushort"  *)
(*              "ulong" "ullong" "bool"                                    *)
(*              "string"                                                   *)
(*   test       [kind |-> "none"] or [kind |-> "lt"|"ge", n |-> text] on   *)
(*              integers, [kind |-> "len", n |-> number] on strings,       *)
(*              [kind |-> "isnt", v |-> text] on any type                  *)
(*   dflt, doc, err                                                        *)
(* Values are kept as canonical texts.                                     *)
(***************************************************************************)
EXTENDS Text

CONSTANT RealText(_)     \* canonical text of a real number token, "" if it is not one

SignedTypes == {"int", "short", "long", "llong", "double"}
Signed(o) == o.shape # "flag" /\ o.type \in SignedTypes
TakesNothing(o) == o.shape = "flag"
\* O05: the next token is the value of o whatever it looks like
Greedy(o) == Signed(o) \/ o.shape = "nodef"

------------------------------------------------------------------------------
(* conversion of a token to a value: [ok, val]                             *)

MaxText(type) == CASE type = "int" -> "2147483647" [] type = "short" -> "32767"
                   [] type \in {"long", "llong"} -> "9223372036854775807"
                   [] type = "unsigned" -> "4294967295" [] type \in {"ulong", "ullong"} -> "18446744073709551615"
                   [] type = "ushort" -> "65535"
MinText(type) == CASE type = "int" -> "2147483648" [] type = "short" -> "32768"
                   [] type \in {"long", "llong"} -> "9223372036854775808"
                   [] OTHER -> "0"

Bad == [ok |-> FALSE, val |-> ""]
Good(v) == [ok |-> TRUE, val |-> v]

ConvInt(type, t) ==
    LET signed == t # "" /\ Ch(t, 1) \in {"-", "+"}
        neg == signed /\ Ch(t, 1) = "-"
        d == IF signed THEN From(t, 2) ELSE t
    IN IF d = "" \/ ~AllDigits(d) THEN Bad
       ELSE LET m == StripZeros(d)
            IN IF ~DigLeq(m, IF neg THEN MinText(type) ELSE MaxText(type)) THEN Bad
               ELSE Good(IF neg /\ m # "0" THEN "-" \o m ELSE m)

Upper(s) == MapText(s, LAMBDA c : CASE c = "t" -> "T" [] c = "r" -> "R" [] c = "u" -> "U" [] c = "e" -> "E"
                                    [] c = "f" -> "F" [] c = "a" -> "A" [] c = "l" -> "L" [] c = "s" -> "S"
                                    [] OTHER -> c)
ConvBool(t) == LET u == Upper(t)
                   i == ConvInt("int", t)
               IN IF u \in {"T", "TRUE"} THEN Good("1")
                  ELSE IF u \in {"F", "FALSE"} THEN Good("0")
                  ELSE IF i.ok THEN Good(IF i.val = "0" THEN "0" ELSE "1")
                  ELSE Bad

Conv(type, t) ==
    CASE type = "string" -> Good(t)
      [] type = "bool" -> ConvBool(t)
      [] type = "double" -> LET v == RealText(t) IN IF v = "" THEN Bad ELSE Good(v)
      [] OTHER -> ConvInt(type, t)

(* integers as texts: a <= b *)
IntLeq(a, b) == LET na == Ch(a, 1) = "-"
                    nb == Ch(b, 1) = "-"
                IN IF na # nb THEN na
                   ELSE IF na THEN DigLeq(From(b, 2), From(a, 2)) ELSE DigLeq(a, b)

Accepts(o, v) ==
    CASE o.test.kind = "none" -> TRUE
      [] o.test.kind = "lt" -> v # o.test.n /\ IntLeq(v, o.test.n)
      [] o.test.kind = "ge" -> IntLeq(o.test.n, v)
      [] o.test.kind = "len" -> Len(v) <= o.test.n
      [] o.test.kind = "isnt" -> v # o.test.v

Zero(type) == IF type = "string" THEN "" ELSE "0"

------------------------------------------------------------------------------
(* the state after registering the options                                 *)
(* val[i]: the target, a text, or a sequence of texts for a vector         *)

Fresh(opts, init) ==
    [val |-> [i \in 1 .. Len(opts) |->
                CASE opts[i].shape = "def" -> opts[i].dflt
                  [] opts[i].shape = "nodef" -> Zero(opts[i].type)
                  [] opts[i].shape = "vec" -> init[i]
                  [] opts[i].shape = "flag" -> "0"],
     present |-> [i \in 1 .. Len(opts) |-> FALSE],
     pos |-> <<>>]

(* one parse: state + pending option (0: none) + outcome so far            *)
Begin(s) == [s |-> s, pend |-> 0, why |-> "", what |-> "", opt |-> 0]
Stop(m, why, what, opt) == [m EXCEPT !.why = why, !.what = what, !.opt = opt]

ByLong(opts, n) == {i \in 1 .. Len(opts) : opts[i].name = n}
ByShort(opts, c) == {i \in 1 .. Len(opts) : opts[i].ab = c}
\* a name given again belongs to the option registered last
Only1(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

LooksLikeSwitch(t) == Len(t) >= 2 /\ Ch(t, 1) = "-" /\ t # "--"

Present(m, i) == [m EXCEPT !.s.present[i] = TRUE]

(* option i is given the text t *)
Give(opts, m, i, t) ==
    LET o == opts[i]
        c == Conv(o.type, t)
    IN IF ~c.ok THEN Stop(m, "conversion", t, i)
       ELSE IF ~Accepts(o, c.val) THEN Stop(m, "rejected", t, i)
       ELSE [m EXCEPT !.s.val[i] = IF o.shape = "vec" THEN Append(@, c.val) ELSE c.val,
                      !.s.present[i] = TRUE, !.pend = 0]

(* an option appears: a flag is done with, any other waits for its value *)
Appear(opts, m, i) ==
    IF TakesNothing(opts[i]) THEN [m EXCEPT !.s.val[i] = "1", !.s.present[i] = TRUE, !.pend = 0]
    ELSE [m EXCEPT !.pend = i]

(* O01 .. O05, O09: the meaning of one token *)
Step(opts, m, t) ==
    IF m.pend # 0 /\ (Greedy(opts[m.pend]) \/ ~LooksLikeSwitch(t)) THEN Give(opts, m, m.pend, t)
    ELSE IF ~LooksLikeSwitch(t) THEN [m EXCEPT !.s.pos = Append(@, t)]
    ELSE LET m1 == IF m.pend = 0 THEN m ELSE [Present(m, m.pend) EXCEPT !.pend = 0]
             long == Ch(t, 2) = "-"
             i == IF long THEN Only1(ByLong(opts, From(t, 3))) ELSE Only1(ByShort(opts, Ch(t, 2)))
         IN IF t \in {"-h", "--help"} THEN Stop(m1, "help", t, 0)
            ELSE IF i = 0 THEN Stop(m1, "unknown", t, 0)
            ELSE Appear(opts, m1, i)

RECURSIVE Fold(_, _, _)
Fold(opts, m, ts) == IF ts = <<>> \/ m.why # "" THEN m
                     ELSE Fold(opts, Step(opts, m, Head(ts)), Tail(ts))

End(m) == IF m.why # "" THEN m ELSE IF m.pend # 0 THEN [Present(m, m.pend) EXCEPT !.pend = 0] ELSE m

(* a whole line *)
Line(opts, s, ts) == End(Fold(opts, Begin(s), ts))

------------------------------------------------------------------------------
(* O06: a line written as one string                                       *)
White == {" ", "\t", "\n", "\r", "\f", ""}  \* the last one is the vertical tab itself: TLA+ has no escape for it

RECURSIVE Words(_)
Words(str) ==
    IF str = "" THEN <<>>
    ELSE IF Ch(str, 1) \in White THEN Words(From(str, 2))
    ELSE IF Ch(str, 1) = "\""
         THEN LET e == Find("\"", str, 2)
              IN <<SubSeq(str, 2, e - 1)>> \o Words(From(str, e + 1))
         ELSE LET es == {i \in 1 .. Len(str) : Ch(str, i) \in White}
                  e == IF es = {} THEN Len(str) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
              IN <<SubSeq(str, 1, e - 1)>> \o Words(From(str, e))

------------------------------------------------------------------------------
(* O08: key=value items                                                    *)

RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) = " " THEN TrimL(From(s, 2)) ELSE s
Trim(s) == StripTrail(TrimL(s), " ")

RECURSIVE Commas(_)
Commas(s) == LET e == Find(",", s, 1)
             IN IF e = 0 THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o Commas(From(s, e + 1))

Item(opts, m, item) ==
    LET kv == Trim(item)
        e == Find("=", kv, 1)
        key == IF e = 0 THEN kv ELSE SubSeq(kv, 1, e - 1)
        i == Only1(ByLong(opts, key))
    IN IF kv = "" THEN m
       ELSE IF key = "help" THEN Stop(m, "help", key, 0)
       ELSE IF i = 0 THEN Stop(m, "unknown", key, 0)
       ELSE IF opts[i].shape = "flag" THEN Appear(opts, m, i)
       ELSE IF e = 0 THEN Present(m, i)
       ELSE Give(opts, m, i, From(kv, e + 1))

RECURSIVE FoldItems(_, _, _)
FoldItems(opts, m, its) == IF its = <<>> \/ m.why # "" THEN m
                           ELSE FoldItems(opts, Item(opts, m, Head(its)), Tail(its))
Items(opts, s, its) == FoldItems(opts, Begin(s), its)

------------------------------------------------------------------------------
(* O03, O09: what is written to standard error                              *)
RECURSIVE LinesOf(_)
LinesOf(s) == LET e == Find("\n", s, 1)
              IN IF e = 0 THEN (IF s = "" THEN <<>> ELSE <<s>>)
                 ELSE <<SubSeq(s, 1, e - 1)>> \o LinesOf(From(s, e + 1))

(* positions of the info strings, in order, each after the one before *)
RECURSIVE InOrder(_, _, _)
InOrder(infos, text, k) == IF infos = <<>> THEN TRUE
                           ELSE LET p == Find(Head(infos), text, k)
                                IN p # 0 /\ InOrder(Tail(infos), text, p + Len(Head(infos)))

HelpShows(opts, infos, text) ==
    LET ls == LinesOf(text)
    IN /\ InOrder(infos, text, 1)
       /\ \A i \in 1 .. Len(opts) : \E j \in 1 .. Len(ls) :
            /\ IsIn("--" \o opts[i].name \o " ", ls[j] \o " ")
            /\ IsIn("-" \o opts[i].ab \o " ", ls[j] \o " ")
            /\ opts[i].doc # "" => IsIn(LinesOf(opts[i].doc)[1], ls[j]) /\ IsIn(opts[i].doc, text)

Diagnosed(opts, infos, m, text) ==
    CASE m.why = "" -> TRUE
      [] m.why = "help" -> HelpShows(opts, infos, text)
      [] m.why = "unknown" -> IsIn(m.what, text)
      [] OTHER -> IsIn(m.what, text) /\ IsIn(opts[m.opt].name, text) /\ IsIn(opts[m.opt].err, text)
=============================================================================
