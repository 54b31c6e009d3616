----------------------------- MODULE WikiTrace ------------------------------
(* Decides whether what the real service did - the requests that reached    *)
(* the servers, the commands that were started, what is in the image cache  *)
(* afterwards and what was returned - is what the specification says.       *)
EXTENDS Wiki, Json, IOUtils

CONSTANT Aspects

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"

VARIABLES t, l, st
vars == <<t, l, st>>

ToSet(s) == {s[i] : i \in 1..Len(s)}
T == Traces[t]
W == [hosts |-> T.hosts, has |-> T.has, conv |-> ToSet(T.conv), proc |-> T.proc, math |-> T.math, ext |-> T.ext]
Ev == T.events[l]
A(aspect, cond) == aspect \in Aspects => cond

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Empty

FileSet(files) == {<<n, files[n]>> : n \in DOMAIN files}

Cmds(e, r) ==
    \/ e.cmds = r.cmds
    \* a formula's PNG that is already there may be used again
    \/ W.math = "template" /\ e.op = "math" /\ e.cmds = <<>> /\ r.ok /\ PngName(e.n) \in DOMAIN st.files

(* operations that ran at the same time: as if one after the other *)
RECURSIVE Fold(_, _, _)
Fold(s, ops, i) ==
    IF i > Len(ops) THEN [st |-> s, cmds |-> <<>>, reqs |-> <<>>, ok |-> TRUE]
    ELSE LET r == Do(W, s, [op |-> ops[i].op, n |-> ops[i].n, fail |-> {}])
             x == Fold(r.st, ops, i + 1)
         IN  [st |-> x.st, cmds |-> r.cmds \o x.cmds, reqs |-> r.reqs \o x.reqs, ok |-> r.ok /\ x.ok]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

Par ==
    LET e == Ev
        r == Fold(st, e.par, 1)
    IN  /\ e.op = "par"
        /\ A("cmds", \A x \in ToSet(e.cmds) \cup ToSet(r.cmds) :
                        \/ Times(e.cmds, x) = Times(r.cmds, x)
                        \/ x.k = "math" /\ Times(e.cmds, x) \in 1..Times(r.cmds, x))
        /\ A("reqs", \A x \in ToSet(e.reqs) \cup ToSet(r.reqs) : Times(e.reqs, x) = Times(r.reqs, x))
        /\ A("ok", e.ok = r.ok)
        /\ A("files", {<<f.n, f.c>> : f \in ToSet(e.files)} = FileSet(r.st.files))
        /\ st' = r.st

Step ==
    LET e == Ev
        r == Do(W, st, [op |-> e.op, n |-> e.n, fail |-> ToSet(e.fail)])
    IN  /\ A("reqs", e.reqs = r.reqs)
        /\ A("cmds", Cmds(e, r))
        /\ A("ok", e.ok = r.ok)
        /\ A("out", r.ok => e.out = r.out)
        /\ A("files", r.ok => {<<f.n, f.c>> : f \in ToSet(e.files)} = FileSet(r.st.files))
        /\ st' = r.st

Next == /\ l <= Len(T.events) /\ (IF Ev.op = "par" THEN Par ELSE Step) /\ l' = l + 1 /\ t' = t

Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(T.events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
