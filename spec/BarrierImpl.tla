----------------------------- MODULE BarrierImpl -----------------------------
(* Barrier::wait as Barrier.cxx does it: one mutex, one condition variable, a count of callers, a number of
   completed passes and the flag. Every step between two scheduling points is one action. A waiter may be
   woken for no reason. Checked to refine Barrier.tla.

   Defect selects a wrong variant; each of them must fail (the model checks are sensitive):
     "readEarly"   the number of the pass is read before the lock is taken (the original code)
     "noCorrupt"   a waiter woken because of a timeout returns normally (the original code)
     "notSticky"   the flag is not looked at on entry (the original code)
     "notifyOne"   the last arrival wakes one waiter only
     "noLoop"      the predicate is not looked at again after a wakeup
     "rearm"       after a wakeup the whole limit starts again
     "flagFirst"   a released waiter that finds the flag set is refused *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS t1, t2, t3, Threads, N, MaxCalls, Limits, MaxTime, Spurious, Defect

VARIABLES pcs,        \* where each thread is
          old,        \* the pass number it has read
          timedOutCv, \* did the timed wait end by its deadline
          dl,         \* deadline of the timed wait on the condition variable, 0 none
          owner,      \* of the mutex, or "nobody"
          incv,       \* threads waiting on the condition variable
          count, passes, corrupted,
          calls,      \* calls made so far
          lim, at, time, wakes,
          first,      \* the deadline the wait began with (history)
          res         \* outcome of the call in progress, "none" before it is decided

vars == <<pcs, old, timedOutCv, dl, owner, incv, count, passes, corrupted, calls, lim, at, time, wakes, first, res>>

Init == /\ pcs = [t \in Threads |-> "out"] /\ old = [t \in Threads |-> 0]
        /\ timedOutCv = [t \in Threads |-> FALSE] /\ dl = [t \in Threads |-> 0]
        /\ owner = "nobody" /\ incv = {} /\ count = 0 /\ passes = 0 /\ corrupted = FALSE
        /\ calls = [t \in Threads |-> 0] /\ lim = [t \in Threads |-> 0] /\ at = [t \in Threads |-> 0]
        /\ time = 0 /\ wakes = 0 /\ first = [t \in Threads |-> 0] /\ res = [t \in Threads |-> "none"]

Enter(t) == /\ pcs[t] = "out" /\ calls[t] < MaxCalls
            /\ calls' = [calls EXCEPT ![t] = @ + 1]
            /\ \E d \in Limits : lim' = [lim EXCEPT ![t] = d]
            /\ at' = [at EXCEPT ![t] = time]
            /\ old' = [old EXCEPT ![t] = IF Defect = "readEarly" THEN passes ELSE 0]
            /\ pcs' = [pcs EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<timedOutCv, dl, owner, incv, count, passes, corrupted, time, wakes, first, res>>

\* takes the lock and runs up to the wait on the condition variable or to the unlock
Locked(t) ==
  /\ pcs[t] = "lock" /\ owner = "nobody"
  /\ IF corrupted /\ Defect # "notSticky"
     THEN /\ res' = [res EXCEPT ![t] = "refused"] /\ pcs' = [pcs EXCEPT ![t] = "exit"]
          /\ UNCHANGED <<old, count, passes, incv, dl, first, timedOutCv>>
     ELSE /\ old' = [old EXCEPT ![t] = IF Defect = "readEarly" THEN @ ELSE passes]
          /\ IF count + 1 = N
             THEN /\ count' = 0 /\ passes' = passes + 1
                  /\ \E keep \in IF Defect = "notifyOne" /\ incv # {} THEN {incv \ {w} : w \in incv} ELSE {{}} :
                        /\ incv' = keep
                        /\ pcs' = [u \in Threads |-> IF u = t THEN "exit" ELSE IF u \in incv \ keep THEN "relock" ELSE pcs[u]]
                  /\ res' = [res EXCEPT ![t] = "passed"]
                  /\ UNCHANGED <<dl, first, timedOutCv>>
             ELSE /\ count' = count + 1
                  /\ dl' = [dl EXCEPT ![t] = IF lim[t] = 0 THEN 0 ELSE time + lim[t]]
                  /\ first' = dl'
                  /\ timedOutCv' = [timedOutCv EXCEPT ![t] = FALSE]
                  \* the predicate is looked at before waiting, too
                  /\ IF old'[t] # passes \/ corrupted
                     THEN pcs' = [pcs EXCEPT ![t] = "decide"] /\ UNCHANGED incv
                     ELSE pcs' = [pcs EXCEPT ![t] = "cv"] /\ incv' = incv \cup {t}
                  /\ UNCHANGED <<passes, res>>
  /\ UNCHANGED <<owner, corrupted, calls, lim, at, time, wakes>>

CvTimeout(t) == /\ pcs[t] = "cv" /\ t \in incv /\ dl[t] # 0 /\ dl[t] <= time
                /\ incv' = incv \ {t} /\ pcs' = [pcs EXCEPT ![t] = "relock"]
                /\ timedOutCv' = [timedOutCv EXCEPT ![t] = TRUE]
                /\ UNCHANGED <<old, dl, owner, count, passes, corrupted, calls, lim, at, time, wakes, first, res>>

CvSpurious(t) == /\ pcs[t] = "cv" /\ t \in incv /\ wakes < Spurious
                 /\ wakes' = wakes + 1
                 /\ incv' = incv \ {t} /\ pcs' = [pcs EXCEPT ![t] = "relock"]
                 /\ UNCHANGED <<old, timedOutCv, dl, owner, count, passes, corrupted, calls, lim, at, time, first, res>>

\* has the lock again: looks at the predicate
Relock(t) ==
  /\ pcs[t] = "relock" /\ owner = "nobody"
  /\ LET pred == old[t] # passes \/ corrupted
         loop == Defect # "noLoop"
     IN IF ~pred /\ ~timedOutCv[t] /\ loop
        THEN /\ pcs' = [pcs EXCEPT ![t] = "cv"] /\ incv' = incv \cup {t}
             /\ dl' = [dl EXCEPT ![t] = IF Defect = "rearm" /\ @ # 0 THEN time + lim[t] ELSE @]
        ELSE pcs' = [pcs EXCEPT ![t] = "decide"] /\ UNCHANGED <<incv, dl>>
  /\ owner' = IF pcs'[t] = "decide" THEN t ELSE "nobody"
  /\ UNCHANGED <<old, timedOutCv, count, passes, corrupted, calls, lim, at, time, wakes, first, res>>

\* still under the lock: what to report
Decide(t) ==
  /\ pcs[t] = "decide" /\ owner \in {t, "nobody"}
  /\ LET pred == old[t] # passes \/ corrupted IN
     IF ~pred /\ (timedOutCv[t] \/ Defect = "noLoop")
     THEN IF timedOutCv[t]
          THEN /\ corrupted' = TRUE /\ incv' = {}
               /\ res' = [res EXCEPT ![t] = "timedout"]
               /\ pcs' = [u \in Threads |-> IF u = t THEN "exit" ELSE IF u \in incv THEN "relock" ELSE pcs[u]]
          ELSE /\ res' = [res EXCEPT ![t] = "passed"] /\ pcs' = [pcs EXCEPT ![t] = "exit"]
               /\ UNCHANGED <<corrupted, incv>>
     ELSE /\ res' = [res EXCEPT ![t] = IF Defect = "flagFirst" /\ corrupted THEN "refused"
                                       ELSE IF old[t] = passes /\ Defect # "noCorrupt" THEN "refused" ELSE "passed"]
          /\ pcs' = [pcs EXCEPT ![t] = "exit"]
          /\ UNCHANGED <<corrupted, incv>>
  /\ owner' = "nobody"
  /\ UNCHANGED <<old, timedOutCv, dl, count, passes, calls, lim, at, time, wakes, first>>

Exit(t) == /\ pcs[t] = "exit" /\ pcs' = [pcs EXCEPT ![t] = "out"] /\ res' = [res EXCEPT ![t] = "none"]
           /\ UNCHANGED <<old, timedOutCv, dl, owner, incv, count, passes, corrupted, calls, lim, at, time, wakes, first>>

Clock == time < MaxTime /\ time' = time + 1
         /\ UNCHANGED <<pcs, old, timedOutCv, dl, owner, incv, count, passes, corrupted, calls, lim, at, wakes, first, res>>

Step(t) == Locked(t) \/ CvTimeout(t) \/ Relock(t) \/ Decide(t) \/ Exit(t)
Next == (\E t \in Threads : Enter(t) \/ Step(t) \/ CvSpurious(t)) \/ Clock
SafeSpec == Init /\ [][Next]_vars
Sym == Permutations(Threads)
Spec == SafeSpec /\ WF_vars(Clock) /\ \A t \in Threads : SF_vars(Step(t))

-----------------------------------------------------------------------------
\* The abstract barrier, seen through the implementation
InWait(t) == pcs[t] \in {"cv", "relock", "decide"}
AbsPc == [t \in Threads |->
            CASE pcs[t] = "out" -> "out"
              [] pcs[t] = "lock" -> "called"
              [] pcs[t] = "exit" -> res[t]
              [] InWait(t) /\ old[t] # passes -> "passed"
              [] InWait(t) /\ old[t] = passes /\ corrupted -> "refused"
              [] OTHER -> "waiting"]
T(x) == <<x, 0>>
A == INSTANCE Barrier WITH size <- N, now <- T(time), pc <- AbsPc, limit <- [t \in Threads |-> T(lim[t])],
                           callAt <- [t \in Threads |-> T(at[t])], broken <- corrupted

AbsNext == \/ \E t \in Threads : \/ \E d \in Limits : A!Call(t, T(d), T(time))
                                 \/ A!Arrive(t, T(time)) \/ A!Expire(t, T(time))
                                 \/ \E r \in {"ok", "timeout", "corrupt"} : A!Return(t, r, T(time))
           \/ A!Tick(T(time + 1))
Refines == A!BInit(N) /\ [][AbsNext]_(A!bvars)

Incomplete == A!Incomplete
NobodyLeft == A!NobodyLeft
OneTimeout == A!OneTimeout

\* nobody sleeps on who has been released or refused
NoLostWakeup == \A t \in incv : AbsPc[t] = "waiting"

\* Liveness: a released or refused call returns; a limited one always does.
Leaves == \A t \in Threads : (AbsPc[t] \in {"called", "passed", "refused", "timedout"} ~> AbsPc[t] \notin {"called", "passed", "refused", "timedout"})
Ends == \A t \in Threads : ((pcs[t] = "cv" /\ dl[t] \in 1 .. MaxTime) ~> pcs[t] = "out")
\* a waiter keeps the deadline it began with
OnTime == \A t \in Threads : (pcs[t] = "cv" /\ lim[t] # 0) => dl[t] # 0 /\ dl[t] = first[t]
=============================================================================
