------------------------------ MODULE CacheGen ------------------------------
(* Explores the cache design and prints every history of operations up to  *)
(* MaxOps as a test case for the real cache.                                *)
EXTENDS Cache, Json

CONSTANTS Files, Sizes, Strategies, Maxes, MaxAge, MaxOps, Ages, ReStrategies, ReMaxes, Emitting

VARIABLES start, cfg, S, now, hist, last, done

vars == <<start, cfg, S, now, hist, last, done>>

Op(op, f, c, s, k) == [op |-> op, f |-> f, c |-> c, s |-> s, k |-> k]

(* a later run may use another strategy and maximum size: ReStrategies, ReMaxes *)
Reconfs == ReStrategies \X ReMaxes

Init == /\ cfg \in [strategy : Strategies, max : Maxes, maxAge : {MaxAge}]
        /\ start = cfg
        /\ done = FALSE /\ S = {} /\ now = 0 /\ hist = <<>> /\ last = [pre |-> {}, op |-> Op("none", "", 0, 0, 0)]

Do(op, next) ==
    /\ S' \in next /\ now' = now + 1 /\ hist' = Append(hist, op)
    /\ last' = [pre |-> S, op |-> op] /\ UNCHANGED <<start, cfg, done>>

Store == \E f \in Files, s \in Sizes :
    Do(Op("store", f, now + 1, s, 0), StoreNext(cfg, S, f, now + 1, s, now + 1))
Get == \E f \in Files : Do(Op("get", f, 0, 0, 0), GetNext(cfg, S, f, now + 1))
(* Ages: minutes before the run; 1000 + n: n minutes later than the run (a file with a time in the future) *)
Pass == \E f \in Files, a \in Ages : LET k == IF a > 1000 THEN 1000 - a ELSE a IN
    /\ Named(S, f) # {}
    /\ Do(Op("age", f, 0, 0, k), {T \in {Others(S, f) \cup {[x EXCEPT !.m = -k] : x \in Named(S, f)}} : TRUE})

Reconf == \E r \in Reconfs :
    /\ hist # <<>> /\ last.op.op # "config" /\ <<cfg.strategy, cfg.max>> # r
    /\ cfg' = [cfg EXCEPT !.strategy = r[1], !.max = r[2]] /\ S' = S /\ now' = now + 1
    /\ hist' = Append(hist, Op("config", r[1], 0, 0, r[2])) /\ last' = [pre |-> S, op |-> Op("config", r[1], 0, 0, r[2])]
    /\ UNCHANGED <<start, done>>

(* a history is complete: one extra step, so that a random walk is printed once *)
Finish == /\ Emitting /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<start, cfg, S, now, hist, last>>

Next == (Len(hist) < MaxOps /\ (Store \/ Get \/ Pass \/ Reconf)) \/ Finish

Spec == Init /\ [][Next]_vars

(* Design properties: the step-by-step design satisfies the declarative     *)
(* relations that the real cache is judged by.                              *)
Inv == TypeOK(S) /\ (Reconfs = {} => SizeBound(cfg, S))
StepInv ==
    LET o == last.op IN
    CASE o.op = "store" -> \/ StoreOk(cfg, last.pre, S, o.f, o.c, o.s, now)
                           \/ StoreFails(cfg, last.pre, S, o.f, o.s)
      [] o.op = "get"   -> \E r \in BOOLEAN : GetRel(cfg, last.pre, S, o.f, r, now)
      [] o.op = "age"   -> AgeRel(last.pre, S, o.f, o.k)
      [] OTHER -> TRUE

Emit == done => PrintT("@@" \o ToJson([cfg |-> start, ops |-> hist]))

(* for exploring deeper without the history: states up to the order of last *)
(* uses (logical times are renumbered)                                      *)
Rank(x) == IF x.m < 0 THEN x.m ELSE Cardinality({y \in S : y.m >= 0 /\ y.m < x.m})
AbsView == <<cfg, {[f |-> x.f, s |-> x.s, m |-> Rank(x)] : x \in S}, last.op.op, Len(hist) < MaxOps>>
=============================================================================
