---------------------------- MODULE TraceMailConc ----------------------------
(* Conformance of recorded concurrent executions of a mailbox with MailBox.tla: every operation must take effect at
   one moment between its call and its return (linearizability). The moments are not in the trace; ACCEPT is printed
   for every trace whose end can be reached. Events: call [t, o], ret [t, res], do [o, res] (nobody
   else is active), end [stuck], live [n] (the number of
   messages left after everything has been released), fault. *)
EXTENDS MailBox, TLC, Json, IOUtils

CONSTANT Threads
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Life == IOEnv.FOCUS = "life"
VARIABLES tid, l, m,
          pend,      \* operations that have been called and not taken effect yet
          res        \* results of those that have
vars == <<tid, l, m, pend, res>>
Tr == Traces[tid].ev
Ev == Tr[l]
None == [op |-> "none"]

Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ m = Empty(1)
        /\ pend = [t \in Threads |-> None] /\ res = [t \in Threads |-> <<>>]

TakeEffect(t) == /\ pend[t] # None
                 /\ Ev.e = "end" \/ (Ev.e = "ret" /\ pend[Ev.t] # None)
                 /\ m' = After(m, pend[t])
                 /\ res' = [res EXCEPT ![t] = IF Open(m, pend[t]) THEN <<"open">> ELSE Result(m, pend[t])]
                 /\ pend' = [pend EXCEPT ![t] = None]
                 /\ UNCHANGED <<tid, l>>

Observe == /\ CASE Ev.e = "call" -> pend[Ev.t] = None /\ res[Ev.t] = <<>> /\ pend' = [pend EXCEPT ![Ev.t] = Ev.o] /\ UNCHANGED <<m, res>>
                [] Ev.e = "ret" -> /\ res[Ev.t] # <<>> /\ (res[Ev.t] = Ev.res \/ res[Ev.t] = <<"open">>)
                                   /\ res' = [res EXCEPT ![Ev.t] = <<>>] /\ UNCHANGED <<m, pend>>
                [] Ev.e = "do" -> /\ \A t \in Threads : pend[t] = None
                                  /\ (Open(m, Ev.o) \/ Result(m, Ev.o) = Ev.res) /\ m' = After(m, Ev.o) /\ UNCHANGED <<pend, res>>
                [] Ev.e = "end" -> Ev.stuck = <<>> /\ UNCHANGED <<m, pend, res>>
                [] Ev.e = "live" -> (Life => Ev.n = 0) /\ UNCHANGED <<m, pend, res>>
                [] OTHER -> FALSE /\ UNCHANGED <<m, pend, res>>
           /\ l' = l + 1 /\ UNCHANGED tid
           /\ (l = Len(Tr) => PrintT(<<"ACCEPT", tid>>))

Next == l <= Len(Tr) /\ (Observe \/ \E t \in Threads : TakeEffect(t))
Spec == Init /\ [][Next]_vars
Reach == PrintT(<<"REACH", tid, l>>)
=============================================================================
