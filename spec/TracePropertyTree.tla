-------------------------- MODULE TracePropertyTree --------------------------
(***************************************************************************)
(* Conformance of recorded executions of PropertyTreeYAML.  FOCUS selects  *)
(* the observations compared: v values of get, m misses and wrong types,   *)
(* w keys and lists of every node, n path names, f file errors, d dump.    *)
(***************************************************************************)
EXTENDS PropertyTree, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, tree, ok
vars == <<tid, l, tree, ok>>
Tr == Traces[tid].ev
Ev == Tr[l]
Reals == Tr[1].reals
RealT(t) == IF t \in DOMAIN Reals THEN Reals[t] ELSE ""
V == INSTANCE Options WITH RealText <- RealT

FOCUS == IOEnv.FOCUS
Looks(c) == IsIn(c, FOCUS)

Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ tree = Empty /\ ok = TRUE

Judge(good, t, expected) ==
    /\ l' = l + 1 /\ UNCHANGED tid
    /\ ok' = good /\ tree' = t
    /\ (~good => PrintT(<<"MISMATCH", tid, l, ToJson(expected)>>))

Start == Ev.op = "start" /\ Judge(TRUE, Empty, "")

(* files *)
Load == /\ Ev.op \in {"load", "ctor"}
        /\ LET t == IF Ev.op = "ctor" THEN Merge(Empty, Ev.doc) ELSE Merge(tree, Ev.doc)
           IN Judge(Ev.res = "ok", t, "the file is read")
Missing == /\ Ev.op \in {"missing", "ctormissing"}
           /\ Judge(Looks("f") => Ev.res = "FileNotFound" /\ Ev.soda /\ IsIn(Ev.name, Ev.what), tree, "FileNotFound")
Malformed == /\ Ev.op \in {"bad", "ctorbad"}
             /\ Judge(Looks("f") => Ev.res = "BadSyntax" /\ Ev.soda, tree, "BadSyntax")

(* one look at a node: res is "ok", "false" or the name of the exception *)
Value(n, type) == IF n.k # "s" THEN V!Bad ELSE V!Conv(type, n.t)

Read(from, ks, path) ==
    LET c == IF Leads(from, ks) THEN Value(At(from, ks), Ev.type) ELSE V!Bad
        want == IF ~Leads(from, ks) THEN (IF Ev.throw THEN "PropertyNotFound" ELSE "false")
                ELSE IF c.ok THEN "ok"
                ELSE IF Ev.throw THEN "BadPropertyType" ELSE "false"
        told == want \in {"PropertyNotFound", "BadPropertyType"} => Ev.soda /\ IsIn(path, Ev.what)
        \* it also contains the text that was found, and tells the types that can be asked for apart
        said == (want = "BadPropertyType" /\ "says" \in DOMAIN Ev) =>
                  /\ (At(from, ks).k = "s" => IsIn(At(from, ks).t, Ev.what))
                  /\ \A i, j \in 1 .. Len(Ev.says) : i # j => Ev.says[i] # Ev.says[j]
    IN Judge(IF c.ok THEN (Looks("v") => Ev.res = "ok" /\ Ev.val = c.val)
                     ELSE (Looks("m") => Ev.res = want /\ told /\ said),
             tree, [res |-> want, val |-> c.val])

Get     == Ev.op = "get" /\ Read(tree, PathKeys(Ev.path), Ev.path)
\* getProp in one or two hops, then get on the node that was found
Hops    == Ev.op = "hops" /\ LET ks == PathKeys(Ev.path)
                                 k2 == PathKeys(Ev.rest)
                             IN IF Leads(tree, ks) THEN Read(At(tree, ks), k2, Ev.rest)
                                ELSE Judge(Looks("m") => Ev.res = "none", tree, "getProp returns null")

(* every node reachable through maps and list items *)
RECURSIVE Mirrors(_, _)
Mirrors(w, n) ==
    /\ w.text = (n.k = "s") /\ (n.k = "s" => w.t = n.t)
    /\ {w.keys[i] : i \in 1 .. Len(w.keys)} = Keys(n) /\ Len(w.keys) = Cardinality(Keys(n))
    /\ \A i \in 1 .. Len(w.keys) : w.sub[i].found /\ Mirrors(w.sub[i], Child(n, w.keys[i]))
    /\ Len(w.list) = Len(Items(n))
    /\ \A i \in 1 .. Len(w.list) : w.list[i].found /\ Mirrors(w.list[i], Items(n)[i])

RECURSIVE Named(_, _, _)
Named(w, n, ks) ==
    /\ w.name = PathOf(ks) /\ w.same
    /\ \A i \in 1 .. Len(w.keys) : w.keys[i] \in Keys(n) => Named(w.sub[i], Child(n, w.keys[i]), Append(ks, w.keys[i]))

Walk == /\ Ev.op = "walk"
        /\ Judge((Looks("w") => Mirrors(Ev.tree, tree)) /\ (Looks("n") => Named(Ev.tree, tree, <<>>)), tree, tree)

\* the whole tree (by = "tree"), or the node at a path with a given indentation; into a stream that has text already
DumpIt == /\ Ev.op = "dump"
          /\ LET ks == PathKeys(Ev.path)
                 want == IF ~Leads(tree, ks) THEN "none" ELSE Dump(At(tree, ks), Ev.indent, Tr[1].order)
             IN Judge(Looks("d") => Ev.text = want /\ Ev.same, tree, want)

Fault == Ev.op = "fault" /\ Judge(FALSE, tree, "a normal return")

Next == l <= Len(Tr) /\ ok /\ (Start \/ Load \/ Missing \/ Malformed \/ Get \/ Hops \/ Walk \/ DumpIt \/ Fault)
Spec == Init /\ [][Next]_vars
=============================================================================
