----------------------------- MODULE TraceOptions -----------------------------
(***************************************************************************)
(* Conformance of recorded executions of SoDa::Options with Options.tla.   *)
(* An execution registers options (its "setup"), then parses lines; every  *)
(* event carries what the program could see afterwards.  FOCUS selects the *)
(* observations that are compared.                                         *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, ok
vars == <<tid, l, st, ok>>

Tr == Traces[tid].ev
Ev == Tr[l]
Setup == Tr[1]

RealT(t) == IF t \in DOMAIN Setup.reals THEN Setup.reals[t] ELSE ""
INSTANCE Options WITH RealText <- RealT

FOCUS == IOEnv.FOCUS
Looks(c) == IsIn(c, FOCUS)
(* v values, p presence, a positional arguments of successful parses; s: of all parses;
   r result, d diagnostics, x refused values are not stored, h help *)

Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ st = [none |-> TRUE] /\ ok = TRUE

Opts == Setup.opts

SeenPos(s, obs) ==
    LET n == Len(s.pos) IN
    /\ obs.pos = s.pos /\ obs.npos = n
    \* getPosArg was asked for -1, 0 .. n, n + 1, n + 1000
    /\ obs.posg = <<"">> \o s.pos \o <<"", "", "">>

SeenPresent(s, obs) ==
    /\ \A i \in 1 .. Len(Opts) : obs.long[i] = s.present[i] /\ obs.short[i] = s.present[Only1(ByShort(Opts, Opts[i].ab))]
    /\ ~obs.other

Clear(s, obs) ==
    /\ (Looks("v") => obs.val = s.val)
    /\ (Looks("p") => SeenPresent(s, obs))
    /\ (Looks("a") => SeenPos(s, obs))

Shown(s) == [val |-> s.val, present |-> s.present, pos |-> s.pos]

Judge(good, s, expected) ==
    /\ l' = l + 1 /\ UNCHANGED tid
    /\ ok' = good /\ st' = s
    /\ (~good => PrintT(<<"MISMATCH", tid, l, ToJson(expected)>>))

DoSetup == /\ Ev.op = "setup"
           /\ LET s == Fresh(Opts, Ev.init) IN Judge(Clear(s, Ev.obs), s, Shown(s))

(* whether an option whose value was refused counts as present is left open *)
Open(m, obs) == IF m.why \in {"conversion", "rejected"}
                THEN [m.s EXCEPT !.present[m.opt] = IF Looks("p") THEN obs.long[m.opt] ELSE @] ELSE m.s

Outcome(m) ==
    LET s == Open(m, Ev.obs)
        refused == m.why \in {"conversion", "rejected"}
    IN IF "lost" \in DOMAIN st THEN Judge(TRUE, st, "")
       ELSE Judge(/\ ((m.why = "" \/ Looks("s")) => Clear(s, Ev.obs))
                  /\ (Looks("r") => Ev.ret = (m.why = "") /\ (m.why = "help" => Ev.helponly))
                  /\ ((Looks("d") /\ m.why \notin {"", "help"}) => Diagnosed(Opts, Setup.infos, m, Ev.err))
                  /\ ((Looks("x") /\ refused) => Ev.obs.val[m.opt] = m.s.val[m.opt])
                  /\ ((Looks("h") /\ m.why = "help") => Diagnosed(Opts, Setup.infos, m, Ev.err) /\ ~Ev.ret /\ Ev.helponly),
                  IF m.why = "" \/ Looks("s") THEN s ELSE [lost |-> TRUE],
                  [state |-> Shown(s), ret |-> (m.why = ""), why |-> m.why, what |-> m.what])

Last0 == IF "lost" \in DOMAIN st THEN Fresh(Opts, Setup.init) ELSE st
ParseTokens == Ev.op \in {"argv", "list"} /\ Outcome(Line(Opts, Last0, Ev.tokens))
ParseString == Ev.op = "str" /\ Outcome(Line(Opts, Last0, Words(Ev.text)))
ParseKV     == Ev.op \in {"kv", "kvobj"} /\ Outcome(Items(Opts, Last0, Commas(Ev.text)))
ParseKVList == Ev.op = "kvlist" /\ Outcome(Items(Opts, Last0, Ev.tokens))
Help        == /\ Ev.op = "help"
               /\ Judge(Looks("h") => HelpShows(Opts, Setup.infos, Ev.text), st, "help for every option")
Fault       == Ev.op = "fault" /\ Judge(FALSE, st, "a normal return")

Next == /\ l <= Len(Tr) /\ ok
        /\ (DoSetup \/ ParseTokens \/ ParseString \/ ParseKV \/ ParseKVList \/ Help \/ Fault)
Spec == Init /\ [][Next]_vars
=============================================================================
