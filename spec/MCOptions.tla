------------------------------ MODULE MCOptions ------------------------------
(***************************************************************************)
(* Exhaustive model of Options::parse over every line of tokens from a     *)
(* small alphabet, up to MaxTok tokens in up to MaxLines lines.            *)
(*                                                                         *)
(* Two machines read the tokens side by side: `m' is the specification     *)
(* (Options!Step) and `c' follows the statements of Options.cxx (arg_p,    *)
(* waiting_for_signed, isSwitch, setVal, setPresent).  TLC checks that     *)
(* they agree after every token and that the specification implies the     *)
(* listed properties, stated over the history of the tokens.               *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC, Json

CONSTANTS OptSets, Alphabet, MaxTok, MaxLines, Gen

NoReal(t) == ""
INSTANCE Options WITH RealText <- NoReal

VARIABLES opts,       \* the registered options
          m,          \* specification
          c,          \* code
          toks,       \* tokens of the current line
          lines,      \* finished lines
          base        \* specification state when the line began
vars == <<opts, m, c, toks, lines, base>>

None(i) == [kind |-> "none"]
Opt(name, ab, shape, type, dflt, test) ==
    [name |-> name, ab |-> ab, shape |-> shape, type |-> type, dflt |-> dflt, doc |-> "", err |-> "", test |-> test]
NT == [kind |-> "none"]
Set1 == <<Opt("in", "i", "def", "int", "7", NT), Opt("un", "u", "def", "unsigned", "3", NT),
          Opt("fl", "f", "flag", "bool", "0", NT)>>
Set2 == <<Opt("in", "i", "nodef", "string", "", NT), Opt("un", "u", "vec", "int", "", [kind |-> "lt", n |-> "4"]),
          Opt("fl", "f", "flag", "bool", "0", NT)>>
Set3 == <<Opt("in", "i", "def", "string", "d", [kind |-> "len", n |-> 2]), Opt("un", "u", "vec", "string", "", NT),
          Opt("fl", "f", "def", "bool", "1", NT)>>
Set4 == <<Opt("in", "i", "nodef", "unsigned", "", NT), Opt("un", "u", "vec", "bool", "", NT),
          Opt("fl", "f", "nodef", "int", "", NT)>>
SetNo(n) == CASE n = 1 -> Set1 [] n = 2 -> Set2 [] n = 3 -> Set3 [] n = 4 -> Set4

Code0(s) == [val |-> s.val, present |-> s.present, pos |-> s.pos, arg |-> 0, waiting |-> FALSE, ret |-> "go"]

Init == /\ \E n \in OptSets : opts = SetNo(n)
        /\ base = Fresh(opts, [i \in 1 .. Len(opts) |-> <<>>])
        /\ m = Begin(base) /\ c = Code0(base)
        /\ toks = <<>> /\ lines = <<>>

------------------------------------------------------------------------------
(* Options.cxx, statement by statement                                      *)

CIsSwitch(x, t) == IF x.waiting THEN 0
                   ELSE IF Len(t) < 2 THEN 0
                   ELSE IF Ch(t, 1) # "-" THEN 0
                   ELSE IF Ch(t, 2) = "-" THEN (IF Len(t) < 3 THEN 0 ELSE 2)
                   ELSE 1
HasDefault(o) == o.shape # "nodef"
CSetPresent(x, i) == [x EXCEPT !.present[i] = TRUE, !.val[i] = IF opts[i].shape = "flag" THEN "1" ELSE @]
CSetVal(x, i, t) ==
    LET o == opts[i]
        v == Conv(o.type, t)
    IN IF o.shape = "flag" THEN CSetPresent(x, i)
       ELSE IF ~v.ok \/ ~Accepts(o, v.val) THEN [x EXCEPT !.ret = "false"]
       ELSE [x EXCEPT !.val[i] = IF o.shape = "vec" THEN Append(@, v.val) ELSE v.val, !.present[i] = TRUE]

CTok(x, t) ==
    LET sw == IF x.arg = 0 \/ HasDefault(opts[x.arg]) THEN CIsSwitch(x, t) ELSE 0
    IN IF sw = 0
       THEN IF x.arg # 0
            THEN LET y == CSetVal(x, x.arg, t)
                 IN IF y.ret = "false" THEN y ELSE [y EXCEPT !.waiting = FALSE, !.arg = 0]
            ELSE [x EXCEPT !.pos = Append(@, t)]
       ELSE LET y == IF x.arg # 0 THEN [CSetPresent(x, x.arg) EXCEPT !.waiting = Signed(opts[x.arg])] ELSE x
                z == [y EXCEPT !.arg = 0]
                help == (sw = 1 /\ Ch(t, 2) = "h") \/ t = "--help"
                i == IF sw = 1 THEN Only1(ByShort(opts, Ch(t, 2))) ELSE Only1(ByLong(opts, From(t, 3)))
            IN IF help \/ i = 0 THEN [z EXCEPT !.ret = "false"]
               ELSE LET w == [z EXCEPT !.waiting = IF Signed(opts[i]) THEN TRUE ELSE @]
                    IN IF opts[i].shape = "flag" THEN [CSetPresent(w, i) EXCEPT !.arg = 0]
                       ELSE [w EXCEPT !.arg = i]
CEnd(x) == IF x.ret = "false" THEN x
           ELSE [(IF x.arg # 0 THEN CSetPresent(x, x.arg) ELSE x) EXCEPT !.arg = 0]

------------------------------------------------------------------------------
Read == /\ Len(toks) < MaxTok /\ m.why = "" /\ c.ret = "go"
        /\ \E t \in Alphabet : /\ toks' = Append(toks, t)
                               /\ m' = Step(opts, m, t)
                               /\ c' = CTok(c, t)
        /\ UNCHANGED <<opts, lines, base>>

EndLine == /\ Len(lines) < MaxLines
           /\ LET e == End(m)
                  f == CEnd(c)
              IN /\ m' = Begin(e.s) /\ base' = e.s
                 /\ c' = [f EXCEPT !.waiting = FALSE, !.ret = "go", !.arg = 0]
                 /\ lines' = Append(lines, toks)
           /\ toks' = <<>>
           /\ UNCHANGED opts

Next == Len(lines) < MaxLines /\ (Read \/ EndLine)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
SameState(s, x) == s.val = x.val /\ s.present = x.present /\ s.pos = x.pos
Agree == /\ SameState(m.s, c)
         /\ (c.ret = "false") = (m.why # "")
         /\ (m.why = "" => c.arg = m.pend)
         /\ LET e == End(m) IN SameState(e.s, CEnd(c))

(* the properties over the tokens of the current line *)
nt == Len(toks)
NamedBy(t) == IF ~LooksLikeSwitch(t) THEN 0
              ELSE IF Ch(t, 2) = "-" THEN Only1(ByLong(opts, From(t, 3))) ELSE Only1(ByShort(opts, Ch(t, 2)))

RECURSIVE Role(_)       \* <<"opt", i>>, <<"val", i>> or <<"pos">> : what token k is
Role(k) ==
    LET t == toks[k]
        before == IF k = 1 THEN <<"pos">> ELSE Role(k - 1)
        i == IF before[1] = "opt" THEN before[2] ELSE 0
    IN IF i # 0 /\ opts[i].shape # "flag"
          /\ (opts[i].shape = "nodef" \/ Signed(opts[i]) \/ ~LooksLikeSwitch(t)) THEN <<"val", i>>
       ELSE IF LooksLikeSwitch(t) THEN <<"opt", NamedBy(t)>>
       ELSE <<"pos">>

Texts(role) == LET idx == SelectSeq([k \in 1 .. nt |-> k], LAMBDA k : Role(k) = role)
               IN [j \in 1 .. Len(idx) |-> toks[idx[j]]]

Done == End(m).s
O01 == m.why = "" => \A i \in 1 .. Len(opts) :
          LET vs == Texts(<<"val", i>>)
              cv == [j \in 1 .. Len(vs) |-> Conv(opts[i].type, vs[j]).val]
          IN CASE opts[i].shape = "flag" -> (Done.val[i] = "1") = (base.val[i] = "1" \/ \E k \in 1 .. nt : Role(k) = <<"opt", i>>)
               [] opts[i].shape = "vec" -> Done.val[i] = base.val[i] \o cv
               [] OTHER -> Done.val[i] = IF vs = <<>> THEN base.val[i] ELSE cv[Len(cv)]
O02 == m.why = "" => Done.pos = base.pos \o Texts(<<"pos">>)
O03 == (m.why = "") <=>
         \A k \in 1 .. nt : LET r == Role(k) IN
            /\ (r[1] = "opt" => r[2] # 0)
            /\ (r[1] = "val" => LET v == Conv(opts[r[2]].type, toks[k]) IN v.ok /\ Accepts(opts[r[2]], v.val))
O03stored == m.why \in {"conversion", "rejected"} => nt > 0 /\ m.what = toks[nt]
                   /\ \A i \in 1 .. Len(opts) : opts[i].shape = "vec" => Len(m.s.val[i]) < Len(base.val[i]) + nt
O04 == m.why = "" => \A i \in 1 .. Len(opts) :
          Done.present[i] = (base.present[i] \/ \E k \in 1 .. nt : Role(k) = <<"opt", i>>)
O07 == nt = 0 => m = Begin(base) /\ ~c.waiting /\ c.arg = 0

Emit == (Gen /\ Len(lines) = MaxLines) => PrintT(<<"GEN", ToJson([opts |-> opts, lines |-> lines])>>)
=============================================================================
