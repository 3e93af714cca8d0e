----------------------------- MODULE TraceBarrier -----------------------------
(* Conformance of recorded executions of SoDa::Barrier under controlled schedules with Barrier.tla.

   A trace has the events
     call  [t, limit, at, stolen]     a thread calls wait
     ret   [t, res, bases, what, at, stolen]   it has returned: "ok", or thrown "timeout" or "corrupt" with the text what
                                      ("other": anything else); bases: b Barrier::Exception, s SoDa::Exception,
                                      r std::runtime_error
     end   [stuck, at, stolen]        the execution is over; the threads in stuck can never run again
     fault                            a crash, or threads that run for ever
   Times are <<s, ms>> on the virtual clock. The clock stands still while a thread can run, except for the time in
   "stolen", in which a runnable thread was kept from running. So a thread that has been released or refused
   returns at the time that happened, give or take Slack and the stolen time.

   Arrive and Expire are not in the trace: they may happen before any event. A trace is a behaviour of the
   specification iff its end is reached, for which ACCEPT is printed. *)
EXTENDS Barrier, Text, TLC, Json, IOUtils, FiniteSetsExt

Slack == <<0, 2>>

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l,
          due        \* when a thread whose outcome is decided has to be back
vars == <<bvars, tid, l, due>>
Tr == Traces[tid].ev
Ev == Tr[l]

Init == /\ tid \in 1 .. Len(Traces) /\ l = 1
        /\ BInit(Traces[tid].size)
        /\ due = [t \in Threads |-> <<0, 0>>]

Limit(t) == IF limit[t] = NoLimit THEN <<2000000000, 0>> ELSE Deadline(t)
MaxOf(S) == CHOOSE x \in S : \A y \in S : Leq(y, x)

\* An outcome is decided between two events, when the clock shows the time of the next one at most.
\* It is enough to consider this right before the return of a thread whose outcome is open, or before the end.
\* Where every thread takes part in every pass and nobody arrives as a limit runs out, the order of the arrivals makes no
\* difference (focus "crowd", with hundreds of threads): the lowest number first.
Called == {u \in Threads : pc[u] = "called"}
Movers == IF IOEnv.FOCUS = "crowd"
          THEN (IF Called = {} THEN {} ELSE {CHOOSE t \in Called : \A u \in Called : t <= u}) \cup {u \in Waiting : limit[u] # NoLimit}
          ELSE Threads
Hidden(t) ==
  /\ Ev.e = "end" \/ (Ev.e = "ret" /\ pc[Ev.t] \in {"called", "waiting"})
  /\ \/ Arrive(t, Ev.at) /\ due' = IF broken THEN [due EXCEPT ![t] = callAt[t]]
                                  ELSE LET g == Waiting \cup {t} IN
                                       IF Cardinality(g) = size
                                       THEN [u \in Threads |-> IF u \in g THEN MaxOf({callAt[v] : v \in g}) ELSE due[u]]
                                       ELSE [due EXCEPT ![t] = Limit(t)]
     \/ Expire(t, Ev.at) /\ due' = [u \in Threads |-> IF u \in Waiting THEN Limit(t) ELSE due[u]]
  /\ UNCHANGED <<tid, l>>

InTime(t) == Leq(Ev.at, Plus(Plus(due[t], Slack), Ev.stolen))

EvCall == Ev.e = "call" /\ Call(Ev.t, Ev.limit, Ev.at) /\ UNCHANGED due

\* B04: an exception names the barrier, and a timeout its limit in milliseconds
LimitText(x) == IF x[1] = 0 THEN NatText(x[2])
                ELSE NatText(x[1]) \o (IF x[2] < 10 THEN "00" ELSE IF x[2] < 100 THEN "0" ELSE "") \o NatText(x[2])
Told == Ev.res = "ok" \/ /\ Ev.bases = "bsr"
                         /\ IsIn(Traces[tid].name, Ev.what)
                         /\ (Ev.res = "timeout" => IsIn(LimitText(limit[Ev.t]) \o " ms", Ev.what))

EvRet == Ev.e = "ret" /\ (IOEnv.FOCUS = "told" => Told) /\ InTime(Ev.t) /\ Return(Ev.t, Ev.res, Ev.at) /\ UNCHANGED due

\* at the end only threads that wait without a limit for a pass that is not complete may be left
EvEnd == /\ Ev.e = "end"
         /\ LET left == {Ev.stuck[i] : i \in DOMAIN Ev.stuck} IN
            \A t \in Threads : IF t \in left THEN pc[t] = "waiting" /\ limit[t] = NoLimit ELSE pc[t] = "out"
         /\ UNCHANGED <<bvars, due>>

Next == /\ l <= Len(Tr)
        /\ \/ \E t \in Movers : Hidden(t)
           \/ /\ EvCall \/ EvRet \/ EvEnd
              /\ l' = l + 1 /\ UNCHANGED tid
              /\ (l = Len(Tr) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
\* while looking for the event at which a single trace is rejected
Reach == PrintT(<<"REACH", tid, l>>)

\* the trace specification takes steps of Barrier.tla only; its invariants hold along every trace
Invariants == Incomplete /\ NobodyLeft /\ OneTimeout
=============================================================================
