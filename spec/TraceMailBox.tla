----------------------------- MODULE TraceMailBox -----------------------------
(* Conformance of recorded operations on mailboxes, one after the other, with MailBox.tla.
   An event is an operation, what it returned (res) and, under FOCUS "life", which messages were destroyed
   meanwhile (died) and whether the messages that were returned are the objects that were put (same). *)
EXTENDS MailBox, TLC, Json, IOUtils
T == INSTANCE Text

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Life == IOEnv.FOCUS = "life"
VARIABLES tid, l, ok, m
vars == <<tid, l, ok, m>>
Tr == Traces[tid].ev
Ev == Tr[l]

\* M05: the text of an exception names the mailbox, and the other one or the number that was wrong
Name(b) == IF Tr[1].op = "names" THEN Tr[1].names[b] ELSE ""
Text(n) == IF n < 0 THEN "-" \o (IF n = -2147483647 - 1 THEN "2147483648" ELSE T!NatText(-n)) ELSE T!NatText(n)
Told(want) ==
  CASE want[1] = "missing" -> /\ Ev.bases = "msr" /\ T!IsIn(Name(Ev.b), Ev.what)
                              /\ T!IsIn(Text(IF Ev.op = "unsub" THEN Ev.n ELSE m.num[Ev.k]), Ev.what)
    [] want[1] = "mismatch" -> Ev.bases = "msr" /\ T!IsIn(Name(Ev.b), Ev.what) /\ T!IsIn(Name(m.box[Ev.k]), Ev.what)
    [] want[1] = "badconversion" -> Ev.bases = "msr" /\ T!IsIn(Name(Ev.b), Ev.what)
    [] OTHER -> TRUE

Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ ok = TRUE /\ m = Empty(3)

Judge(good, expected, next) == /\ l' = l + 1 /\ UNCHANGED tid
                               /\ ok' = good
                               /\ m' = IF good THEN next ELSE m
                               /\ (~good => PrintT(<<"MISMATCH", tid, l, ToJson(expected)>>))

Step ==
  IF Ev.op = "fault" THEN Judge(FALSE, "a normal return", m)
  ELSE IF Ev.op = "names" THEN Judge(l = 1, "a correct script", m)
  ELSE IF ~Allowed(m, Ev) THEN Judge(FALSE, "a correct script", m)
  ELSE LET want == IF Open(m, Ev) THEN Ev.res ELSE Result(m, Ev)
           next == After(m, Ev)
           died == (Alive(m) \cup (IF Ev.op = "new" THEN {Ev.x} ELSE {})
                             \cup (IF Ev.op = "puts" THEN {Ev.x + i - 1 : i \in 1 .. Ev.n} ELSE {})) \ Alive(next)
           good == /\ Ev.res = want
                   /\ (IOEnv.FOCUS = "told" => Told(want))
                   /\ (Ev.op = "sub" => FreshNumber(m, Ev.b, Ev.n))
                   /\ (Life => Ev.same /\ SeqRange(Ev.died) = died /\ Len(Ev.died) = Cardinality(died))
       IN Judge(good, [res |-> want, died |-> IF Life THEN died ELSE {}, what |-> "result (and destroyed messages)"], next)

Next == l <= Len(Tr) /\ ok /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
