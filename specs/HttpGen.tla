------------------------------ MODULE HttpGen -------------------------------
(* Histories of downloads and posts with every kind of server behaviour.    *)
EXTENDS Http, Json

CONSTANTS Items, Prefixes, Finals, MaxOps, Kinds

VARIABLES cache, hist, done
vars == <<cache, hist, done>>

Scripts == {Append(p, f) : p \in Prefixes, f \in Finals}
Op(op, item, c, script) == [op |-> op, item |-> item, c |-> c, script |-> script]
C == Len(hist) + 1

Init == cache = [i \in Items |-> 0] /\ hist = <<>> /\ done = FALSE

Get == \E i \in Items, s \in Scripts :
    /\ cache' = GetNext(cache, i, s, C)
    /\ hist' = Append(hist, Op("get", i, C, s))
Post == \E i \in Items, s \in Scripts :
    /\ hist' = Append(hist, Op("post", i, C, s)) /\ UNCHANGED cache
(* the cached file disappears, or gets outdated, or stays but gets older    *)
Lose == \E i \in Items, how \in {"drop", "age"} :
    /\ cache[i] # 0 /\ cache' = [cache EXCEPT ![i] = 0]
    /\ hist' = Append(hist, Op(how, i, 0, <<>>))
Older == \E i \in Items : cache[i] # 0 /\ UNCHANGED cache /\ hist' = Append(hist, Op("older", i, 0, <<>>))

Next == \/ /\ Len(hist) < MaxOps /\ UNCHANGED done
           /\ \/ "get" \in Kinds /\ Get
              \/ "post" \in Kinds /\ Post
              \/ "lose" \in Kinds /\ (Lose \/ Older)
        \/ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cache, hist>>

(* content is only ever cached after a successful answer                    *)
OnlySuccess == \A i \in Items : cache[i] # 0 =>
    \E k \in 1..Len(hist) : hist[k].op = "get" /\ hist[k].item = i /\ hist[k].c = cache[i] /\ Final(hist[k].script) = "ok"

Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
