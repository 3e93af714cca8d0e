------------------------------ MODULE TraceSplit ------------------------------
(* Conformance of recorded calls of squashSpaces, split and splitVec with Split.tla. *)
EXTENDS Split, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
Tr == Traces[tid].ev
Ev == Tr[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ ok = TRUE

Judge(good, expected) == /\ l' = l + 1 /\ UNCHANGED tid
                         /\ ok' = good
                         /\ (~good => PrintT(<<"MISMATCH", tid, l, ToJson(expected)>>))

Call == CASE Ev.op = "squash" -> Judge(Ev.out = Squash(Ev.s) /\ Ev.again = Ev.out, Squash(Ev.s))
          [] Ev.op \in {"split", "splitVec"} ->
               LET e == SplitOf(Ev.s, Ev.d, Ev.n) IN Judge(Ev.out = e, e)
          [] Ev.op = "fault" -> Judge(FALSE, "a normal return")

Next == l <= Len(Tr) /\ ok /\ Call
Spec == Init /\ [][Next]_vars
=============================================================================
