----------------------------- MODULE CacheNames -----------------------------
(* Where the cache puts the items: a one-to-one map from names to files,    *)
(* every file directly inside the folder of its item.                       *)
(* A file is the sequence of its path segments below the cache directory.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"

VARIABLES t, l, loc, content
vars == <<t, l, loc, content>>
(* loc: function from items (folder and name) to files; content: from files to content *)

Ev == Traces[t].events[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ loc = <<>> /\ content = <<>>

Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Store(e) ==
    LET item == <<e.folder, e.name>>
    IN  /\ e.op = "store" /\ e.res = "ok"
        /\ Len(e.path) = 2 /\ e.path[1] = e.folder /\ e.path[2] \notin {"", ".", ".."}
        /\ IF item \in DOMAIN loc THEN loc[item] = e.path
           ELSE e.path \notin DOMAIN content
        /\ loc' = Extend(loc, item, e.path)
        /\ content' = Extend(content, e.path, e.c)

Get(e) ==
    LET item == <<e.folder, e.name>>
    IN  /\ e.op = "get"
        /\ IF item \in DOMAIN loc
           THEN e.res = "hit" /\ e.path = loc[item] /\ e.c = content[e.path]
           ELSE e.res = "miss"
        /\ UNCHANGED <<loc, content>>

(* everything that lies below the cache directory at the end *)
Dir(e) == /\ e.op = "dir" /\ ToSet(e.files) = DOMAIN content /\ e.outside = 0
          /\ UNCHANGED <<loc, content>>

Next == /\ l <= Len(Traces[t].events) /\ (Store(Ev) \/ Get(Ev) \/ Dir(Ev)) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(Traces[t].events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
