------------------------------ MODULE WikiGen -------------------------------
(* Histories of the wikipedia service over every world and configuration.   *)
EXTENDS Wiki, Json

CONSTANTS Images, Formulas, Exts, Hosts, Outcomes, Convs, Procs, Maths, FailSets, MaxOps, Drops

VARIABLES w, st, hist, last, done
vars == <<w, st, hist, last, done>>

Worlds ==
    {[hosts |-> hs, has |-> has, conv |-> cv, proc |-> pr, math |-> mt, ext |-> [n \in Images |-> Exts[n]]] :
        hs \in Hosts, has \in UNION {[1..k -> [Images -> Outcomes]] : k \in {Len(x) : x \in Hosts}},
        cv \in Convs, pr \in Procs, mt \in Maths}

Op(op, n, fail) == [op |-> op, n |-> n, fail |-> fail]
Ops == {Op("image", n, f) : n \in Images, f \in FailSets} \cup {Op("math", m, f) : m \in Formulas, f \in FailSets}

Init == /\ w \in {x \in Worlds : Len(x.hosts) = Cardinality(DOMAIN x.has)}
        /\ st = Empty /\ hist = <<>> /\ last = TRUE /\ done = FALSE

Step(op) == LET r == Do(w, st, op)
            IN  st' = r.st /\ last' = r.ok /\ hist' = Append(hist, op)

Losses == IF ~Drops THEN {} ELSE
    {Op("dropfile", n, {}) : n \in DOMAIN st.files} \cup
    {Op("droppage", n, {}) : n \in {k[2] : k \in DOMAIN st.pages}} \cup
    {Op("droptok", m, {}) : m \in st.toks}

Next == \/ /\ Len(hist) < MaxOps /\ UNCHANGED <<w, done>>
           /\ \E op \in Ops \cup Losses : Step(op)
        \/ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, st, hist, last>>

(* The design: whatever failed before, every picture in the cache is        *)
(* completely processed, exactly once, and comes from the first host that   *)
(* has it.                                                                  *)
Sources(n) == {i \in 1..Len(w.hosts) : w.has[i][n] \in {"own", "redir"}}
Final(n) ==
    LET raw == {F(w.hosts[i], Title(w, i, n)) : i \in Sources(n)}
    IN  IF Ext(w, n) \in {"svg", "pdf"} \/ ~w.proc \/ Converted(w, n) THEN raw ELSE {Term("proc", x) : x \in raw}
FinalPng(n) ==
    LET raw == {F(w.hosts[i], Title(w, i, n)) : i \in Sources(n)}
    IN  IF w.proc THEN {Term("proc", Term("conv", x)) : x \in raw} ELSE {Term("conv", x) : x \in raw}
Processed == \A n \in Images :
    /\ n \in DOMAIN st.files => st.files[n] \in Final(n)
    /\ Png(n) \in DOMAIN st.files /\ Png(n) \notin Images => Converted(w, n) /\ st.files[Png(n)] \in FinalPng(n)
FirstSource == \A n \in Images :
    (\A k \in 1..Len(hist) : hist[k].fail = {}) /\ n \in DOMAIN st.files =>
        \A i \in Sources(n) : (\A j \in Sources(n) : i <= j) =>
            st.files[n] \in {F(w.hosts[i], Title(w, i, n)), Term("proc", F(w.hosts[i], Title(w, i, n)))}
Fails == Len(hist) > 0 /\ hist[Len(hist)].op = "image" /\ hist[Len(hist)].fail = {} =>
    (last <=> (Sources(hist[Len(hist)].n) # {} \/ hist[Len(hist)].n \in DOMAIN st.files))

Emit == done => PrintT("@@" \o ToJson([hosts |-> w.hosts, has |-> w.has, conv |-> w.conv, proc |-> w.proc, math |-> w.math, ext |-> w.ext, ops |-> hist]))
=============================================================================
