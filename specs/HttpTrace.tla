----------------------------- MODULE HttpTrace ------------------------------
(* Decides whether what client and server recorded is allowed.  Per event:  *)
(*  n      requests that arrived at the server                              *)
(*  same   all of them were identical in method, URL, headers and body      *)
(*  right  they had the wanted method, URL, headers and body                *)
(*  ua     they carried the configured user agent                           *)
(*  waits  milliseconds between an answer and the next request              *)
(*  res, fresh, c   what the caller got; disk: what is cached afterwards    *)
EXTENDS Http, Json, IOUtils

CONSTANT Aspects

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"

VARIABLES t, l, cache
vars == <<t, l, cache>>

Ev == Traces[t].events[l]
Items == {Traces[t].events[i].item : i \in 1..Len(Traces[t].events)}
Init == t \in 1..Len(Traces) /\ l = 1 /\ cache = [i \in Items |-> 0]
A(aspect, cond) == aspect \in Aspects => cond

Requests(e) ==
    /\ A("count", e.n = Uses(e.script))
    /\ A("once", e.n = Uses(e.script))
    /\ A("again", e.n >= 1)
    /\ A("same", e.same /\ e.right)
    /\ A("ua", e.ua)
    /\ A("wait", \A i \in 1..Len(e.waits) : i < Uses(e.script) => e.waits[i] >= WaitMs(e.script[i]))

Outcome(e, ok) ==
    IF ok THEN e.res = "ok" /\ e.c = e.want ELSE e.res = "err"

Get(e) ==
    /\ e.op = "get"
    /\ IF cache[e.item] # 0
       THEN A("hit", e.n = 0 /\ e.res = "ok" /\ ~e.fresh /\ e.c = cache[e.item] /\ e.disk = cache[e.item])
       ELSE /\ Requests(e)
            /\ A("outcome", Outcome(e, Final(e.script) = "ok"))
            /\ A("fresh", e.res = "ok" => e.fresh)
            /\ A("disk", e.disk = IF Final(e.script) = "ok" THEN e.want ELSE 0)
    /\ cache' = GetNext(cache, e.item, e.script, e.want)

Post(e) ==
    /\ e.op = "post" /\ Requests(e)
    /\ A("outcome", Outcome(e, Final(e.script) = "ok"))
    /\ UNCHANGED cache

Lose(e) == e.op \in {"drop", "age"} /\ cache' = [cache EXCEPT ![e.item] = 0]
Older(e) == e.op = "older" /\ UNCHANGED cache

Next == /\ l <= Len(Traces[t].events) /\ (Get(Ev) \/ Post(Ev) \/ Lose(Ev) \/ Older(Ev)) /\ l' = l + 1 /\ t' = t

Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(Traces[t].events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
