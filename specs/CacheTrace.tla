----------------------------- MODULE CacheTrace -----------------------------
(* Decides whether recorded behaviours of the real cache are behaviours of  *)
(* the specification.  Every line of the trace file is one trace: a         *)
(* configuration and a sequence of events, each with the state of the cache *)
(* directory after it.  Aspects selects which parts of the step relations   *)
(* are enforced.                                                            *)
EXTENDS Cache, Json, IOUtils, SequencesExt

CONSTANT Aspects

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"

VARIABLES t, l, S, cfg
vars == <<t, l, S, cfg>>

Ev == Traces[t].events[l]
Post == ToSet(Ev.state)

Init == t \in 1..Len(Traces) /\ l = 1 /\ S = {} /\ cfg = Traces[t].cfg

A(aspect, cond) == aspect \in Aspects => cond

(* nothing outside the entry folders changed, and no foreign files appeared *)
Contained(e) == e.outside = 0

SOk(e, T) ==
    /\ e.res = "ok"
    /\ A("content", StoreContent(S, T, e.f, e.c, e.s, e.now))
    /\ A("size", StoreSize(cfg, T))
    /\ A("none", StoreNone(cfg, S, T, e.f))
    /\ A("victims", StoreOrder(cfg, S, T, e.f) /\ StoreNeeded(cfg, S, T, e.f, e.s))

SErr(e, T) ==
    /\ e.res = "err"
    /\ A("refuse", e.fault # "" \/ MayRefuse(cfg, e.s))
    /\ A("failed", IF e.fault = "" THEN StoreFailed(cfg, S, T, e.f, e.s) ELSE T \subseteq S)

(* A fault can make the accounting of sizes fail, so it may evict too much. *)
(* Under a fault the store may also succeed (the fault hit something that   *)
(* does not matter); success means the full content is there.               *)
Store(e) ==
    /\ e.op = "store"
    /\ SOk(e, Post) \/ SErr(e, Post)
    /\ A("temp", e.tmp = 0)
    /\ A("crash", \A i \in 1..Len(e.snaps) :
                     IF e.fault = "" THEN StoreCrashed(cfg, S, ToSet(e.snaps[i]), e.f, e.c, e.s, e.now)
                     ELSE StoreContent(S, ToSet(e.snaps[i]), e.f, e.c, e.s, e.now) \/ ToSet(e.snaps[i]) \subseteq S)
    /\ A("oversize", (e.res = "ok" /\ cfg.strategy # "none") => e.s <= cfg.max)

Get(e) ==
    /\ e.op = "get"
    /\ IF e.res = "err" THEN A("fresh", e.fault # "") /\ A("failed", Post \subseteq S)
       ELSE /\ A("fresh", GetRel(cfg, S, Post, e.f, e.res = "hit", e.now))
            /\ A("content", Post \subseteq S \/ cfg.strategy = "lru")
            /\ A("content", e.res = "hit" => \E x \in Named(S, e.f) : x.c = e.c)

Pass(e) == e.op = "age" /\ AgeRel(S, Post, e.f, e.k)

(* a later run uses the cache with another limit or strategy               *)
Config(e) == e.op = "config" /\ Post = S

(* the process dies inside a store; what a new process finds                *)
Crash(e) == e.op = "crash" /\ A("crash", StoreCrashed(cfg, S, Post, e.f, e.c, e.s, e.now))

(***************************************************************************)
(* Several operations at the same time: what was observed has to be the     *)
(* result of executing them one after the other in some order.              *)
(***************************************************************************)
StoreStates(P, o) ==
    IF o.res = "err" THEN IF MayRefuse(cfg, o.s) THEN {T \in SUBSET P : StoreFailed(cfg, P, T, o.f, o.s)} ELSE {}
    ELSE {T \in {O \cup {[f |-> o.f, c |-> o.c, s |-> o.s, m |-> o.now]} : O \in SUBSET Others(P, o.f)} :
              StoreOk(cfg, P, T, o.f, o.c, o.s, o.now)}

(* A lookup hands out a path; the caller reads it later.  It reads complete *)
(* content of the entry, or of a store going on at the same time, or finds  *)
(* it evicted by such a store (c = -2).                                     *)
GetStates(P, o, all) ==
    LET T1 == {T \in {P, Others(P, o.f), Others(P, o.f) \cup {[x EXCEPT !.m = o.now] : x \in Named(P, o.f)}} :
                  GetRel(cfg, P, T, o.f, o.res = "hit", o.now)}
        stores == {q \in all : q.op = "store" /\ q.f = o.f}
        readable == \/ \E x \in Named(P, o.f) : x.c = o.c
                    \/ \E q \in stores : q.c = o.c
                    \/ o.c = -2 /\ cfg.strategy # "none" /\ \E q \in all : q.op = "store"
    IN  IF o.res = "err" THEN {} ELSE IF o.res = "hit" /\ ~readable THEN {} ELSE T1

RECURSIVE Linear(_, _, _)
Linear(P, todo, all) ==
    IF todo = {} THEN {P}
    ELSE UNION {UNION {Linear(Q, todo \ {o}, all) :
                           Q \in IF o.op = "store" THEN StoreStates(P, o) ELSE GetStates(P, o, all)} : o \in todo}

Par(e) == /\ e.op = "par" /\ e.tmp = 0
          /\ Post \in Linear(S, ToSet(e.ops), ToSet(e.ops))

Step(e) == Contained(e) /\ (Store(e) \/ Get(e) \/ Pass(e) \/ Crash(e) \/ Par(e) \/ Config(e))

Next == /\ l <= Len(Traces[t].events) /\ Step(Ev) /\ S' = Post /\ l' = l + 1 /\ t' = t
        /\ cfg' = IF Ev.op = "config" THEN [cfg EXCEPT !.strategy = Ev.f, !.max = Ev.k] ELSE cfg

Spec == Init /\ [][Next]_vars

Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(Traces[t].events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
