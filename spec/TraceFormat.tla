----------------------------- MODULE TraceFormat -----------------------------
(***************************************************************************)
(* Conformance of recorded executions of SoDa::Format with Format.tla.     *)
(* Every line of the trace file is one execution: a sequence of events,    *)
(* each with its arguments and the text str() gave afterwards.             *)
(***************************************************************************)
EXTENDS Format, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l,       \* which execution, next event
          orig, segs, next,   \* the Format object
          other,        \* a second object, made by copying
          radix,        \* Format::separator
          ok            \* FALSE: the execution left the specification

vars == <<tid, l, orig, segs, next, other, radix, ok>>

Tr == Traces[tid].ev
Ev == Tr[l]

Init == /\ tid \in 1 .. Len(Traces)
        /\ l = 1 /\ ok = TRUE
        /\ orig = "" /\ segs = <<>> /\ next = 0 /\ radix = "."
        /\ other = [orig |-> "", segs |-> <<>>, next |-> 0]

Reject(expected) == /\ PrintT(<<"MISMATCH", tid, l, ToJson(expected)>>)
                    /\ ok' = FALSE /\ l' = l + 1
                    /\ UNCHANGED <<tid, orig, segs, next, other, radix>>
Accept == ok' = TRUE /\ l' = l + 1 /\ UNCHANGED tid

(* the observation that goes with every event *)
Seen(s) == Ev.out = StrOf(s)

New == /\ Ev.op = "new"
       /\ LET s == Parse(Ev.fmt) IN
          IF Seen(s) THEN Accept /\ orig' = Ev.fmt /\ segs' = s /\ next' = 0 /\ UNCHANGED <<other, radix>>
          ELSE Reject(StrOf(s))

Reset == /\ Ev.op = "reset"
         /\ LET s == Parse(orig) IN
            IF Seen(s) THEN Accept /\ segs' = s /\ next' = 0 /\ UNCHANGED <<orig, other, radix>>
            ELSE Reject(StrOf(s))

Add == /\ Ev.op \in AddOps
       /\ LET cand == Render(Ev, radix)
              good == {t \in cand : Ev.out = StrOf(Fill(segs, next, t))}
              shown == IF Cardinality(cand) > 4 THEN CHOOSE t \in cand : TRUE ELSE ToString(cand)
          IN IF good = {} THEN Reject([field |-> shown])
             ELSE /\ Accept /\ UNCHANGED <<orig, other, radix>>
                  /\ segs' = Fill(segs, next, CHOOSE t \in good : TRUE)
                  /\ next' = next + 1

Observe == /\ Ev.op \in {"str", "stream"}
           /\ IF Seen(segs) THEN Accept /\ UNCHANGED <<orig, segs, next, other, radix>>
              ELSE Reject(StrOf(segs))

Strict == /\ Ev.op = "strict"
          /\ IF Ev.res = (IF Unfilled(segs) THEN "BadFormat" ELSE "ok")
                /\ (Ev.res = "ok" => Seen(segs))
                /\ (Ev.res = "BadFormat" => IsIn(orig, Ev.what))     \* which format string it was
             THEN Accept /\ UNCHANGED <<orig, segs, next, other, radix>>
             ELSE Reject([unfilled |-> Unfilled(segs), str |-> StrOf(segs)])

SetSep == /\ Ev.op = "sep"
          /\ Accept /\ radix' = Ev.c /\ UNCHANGED <<orig, segs, next, other>>

(* chained call through Format_ext: the same object must come back *)
Chain == /\ Ev.op = "chained"
         /\ IF Ev.same = "1" THEN Accept /\ UNCHANGED <<orig, segs, next, other, radix>>
            ELSE Reject("the call returned another object")

(* Objects are values.  copy: go on with a copy, the original becomes the   *)
(* other object; assign: the other object becomes a copy of this one;       *)
(* swap: go on with the other object; dispose: the other object ends.       *)
This == [orig |-> orig, segs |-> segs, next |-> next]
Copy == /\ Ev.op \in {"copy", "assign", "dispose"}
        /\ IF Seen(segs) THEN /\ Accept /\ UNCHANGED <<orig, segs, next, radix>>
                              /\ other' = IF Ev.op = "dispose" THEN other ELSE This
           ELSE Reject(StrOf(segs))
Swap == /\ Ev.op = "swap"
        /\ IF Seen(other.segs) THEN /\ Accept /\ UNCHANGED radix /\ other' = This
                                    /\ orig' = other.orig /\ segs' = other.segs /\ next' = other.next
           ELSE Reject(StrOf(other.segs))

(* a crash, hang or escaped exception is never a behaviour *)
Fault == Ev.op = "fault" /\ Reject("a normal return")

Next == /\ l <= Len(Tr) /\ ok
        /\ (New \/ Reset \/ Add \/ Observe \/ Strict \/ SetSep \/ Chain \/ Copy \/ Swap \/ Fault)

Spec == Init /\ [][Next]_vars
=============================================================================
