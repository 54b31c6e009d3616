------------------------------- MODULE Cache -------------------------------
(* The file cache: entries in folders below the cache directory, a size     *)
(* limit with an eviction strategy, and an age limit.                       *)
(*                                                                          *)
(* A state of the cache is a set of entries [f, c, s, m]: name, content id  *)
(* (unique per store; -1 stands for content that is not the complete data   *)
(* of any store), size, and time of last use (m: logical time of the        *)
(* operation that set it; negative: -k means "k minutes old").              *)
(*                                                                          *)
(* The step relations below are used by CacheGen (which explores the design *)
(* and generates histories) and by CacheTrace (which decides whether what   *)
(* the real cache did is a behaviour of this specification).                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

SizeOf(S) == MapThenSumSet(LAMBDA x : x.s, S)
Named(S, f) == {x \in S : x.f = f}
Others(S, f) == {x \in S : x.f # f}
NameOf(x) == x.f

(* x has to be evicted no later than y (ties are free) *)
Prior(strategy, x, y) ==
    IF strategy = "lru" THEN x.m <= y.m ELSE x.s >= y.s

(***************************************************************************)
(* Store of content c of size s under name f at time now, from S to T.     *)
(* Each conjunct is one aspect, so that a check can say which one failed.  *)
(***************************************************************************)
Victims(S, T, f) == Others(S, f) \ T

StoreContent(S, T, f, c, s, now) ==
    LET new == [f |-> f, c |-> c, s |-> s, m |-> now]
    IN  new \in T /\ T \ {new} \subseteq Others(S, f)

StoreSize(cfg, T) == cfg.strategy # "none" => SizeOf(T) <= cfg.max

StoreNone(cfg, S, T, f) == cfg.strategy = "none" => Victims(S, T, f) = {}

(* the victims are a prefix of the eviction order *)
StoreOrder(cfg, S, T, f) ==
    \A v \in Victims(S, T, f) : \A k \in Others(S, f) \cap T : Prior(cfg.strategy, v, k)

(* before the last victim went, the new file did not fit; a cache that     *)
(* would be exactly full may or may not count as overflowing               *)
StoreNeeded(cfg, S, T, f, s) ==
    LET V == Victims(S, T, f)
    IN  V # {} => \E v \in V : /\ \A w \in V : Prior(cfg.strategy, w, v)
                               /\ SizeOf(Others(S, f)) - SizeOf(V) + v.s + s >= cfg.max

StoreOk(cfg, S, T, f, c, s, now) ==
    /\ StoreContent(S, T, f, c, s, now)
    /\ StoreSize(cfg, T)
    /\ StoreNone(cfg, S, T, f)
    /\ StoreOrder(cfg, S, T, f)
    /\ StoreNeeded(cfg, S, T, f, s)

MayRefuse(cfg, s) == cfg.strategy # "none" /\ s >= cfg.max

(* What a store that did not succeed may leave behind: nothing new, and    *)
(* entries may only be missing if room had to be made.                     *)
StoreFailed(cfg, S, T, f, s) ==
    /\ T \subseteq S
    /\ T # S => cfg.strategy # "none" /\ SizeOf(Others(S, f)) + s >= cfg.max

StoreFails(cfg, S, T, f, s) == MayRefuse(cfg, s) /\ StoreFailed(cfg, S, T, f, s)

(* What a crash during a store may leave behind: like a failed store, or   *)
(* the finished store.                                                     *)
StoreCrashed(cfg, S, T, f, c, s, now) ==
    \/ StoreFailed(cfg, S, T, f, s)
    \/ /\ StoreContent(S, T, f, c, s, now)
       /\ Victims(S, T, f) # {} => cfg.strategy # "none" /\ SizeOf(Others(S, f)) + s >= cfg.max

(***************************************************************************)
(* Lookup of name f at time now: res is TRUE iff the entry is usable.      *)
(* An entry whose age in whole minutes is exactly the limit may be either. *)
(***************************************************************************)
Age(x) == IF x.m < 0 THEN -x.m ELSE 0

GetUsable(cfg, S, T, f, now) ==
    \E x \in Named(S, f) :
        /\ Age(x) <= cfg.maxAge
        /\ T = IF cfg.strategy = "lru" THEN Others(S, f) \cup {[x EXCEPT !.m = now]} ELSE S

GetOutdated(cfg, S, T, f) ==
    \E x \in Named(S, f) : Age(x) >= cfg.maxAge /\ T = Others(S, f)

GetMissing(S, T, f) == Named(S, f) = {} /\ T = S

GetRel(cfg, S, T, f, res, now) ==
    \/ res = TRUE /\ GetUsable(cfg, S, T, f, now)
    \/ res = FALSE /\ (GetOutdated(cfg, S, T, f) \/ GetMissing(S, T, f))

(***************************************************************************)
(* The environment lets time pass for one file: it becomes k minutes old.  *)
(***************************************************************************)
AgeRel(S, T, f, k) ==
    IF Named(S, f) = {} THEN T = S
    ELSE T = Others(S, f) \cup {[x EXCEPT !.m = -k] : x \in Named(S, f)}

(***************************************************************************)
(* Successor states, for exploring the design.                             *)
(***************************************************************************)
(* Eviction step by step, the way an implementation works: the set of      *)
(* states reachable by removing victims in order until s more bytes fit.   *)
RECURSIVE EvictAll(_, _, _)
EvictAll(cfg, O, s) ==
    IF cfg.strategy = "none" \/ SizeOf(O) + s < cfg.max \/ O = {} THEN {O}
    ELSE UNION {EvictAll(cfg, O \ {v}, s) : v \in {w \in O : \A k \in O : Prior(cfg.strategy, w, k)}}

StoreNext(cfg, S, f, c, s, now) ==
    IF MayRefuse(cfg, s) THEN {S}
    ELSE {O \cup {[f |-> f, c |-> c, s |-> s, m |-> now]} : O \in EvictAll(cfg, Others(S, f), s)}

GetNext(cfg, S, f, now) ==
    LET N == Named(S, f)
    IN  IF N = {} THEN {S}
        ELSE LET x == CHOOSE x \in N : TRUE
             IN  IF Age(x) > cfg.maxAge THEN {Others(S, f)}
                 ELSE IF cfg.strategy = "lru" THEN {Others(S, f) \cup {[x EXCEPT !.m = now]}} ELSE {S}

TypeOK(S) == \A x, y \in S : x.f = y.f => x = y
SizeBound(cfg, S) == cfg.strategy # "none" => SizeOf(S) <= cfg.max
=============================================================================
