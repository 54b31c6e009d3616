-------------------------------- MODULE Http --------------------------------
(* Requests to the server through the download cache.                       *)
(*                                                                          *)
(* The server answers each request with the next answer of a script:        *)
(*   ok            success with content c                                   *)
(*   ra<n>         "too many requests", wait n seconds                         *)
(*   ranone rabad  "too many requests" without a usable number              *)
(*   anything else a failure: a status, an error header, no or half answer  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Seconds == {0, 1, 2, 3, 5, 7, 10, 29, 30, 31, 45, 59, 60, 61, 90, 100, 119, 120, 121, 300, 301, 400, 600, 900, 1800, 3600, 3601, 5000, 7200, 86400, 100000}
Asks == [a \in {"ra" \o ToString(n) : n \in Seconds} |-> CHOOSE n \in Seconds : a = "ra" \o ToString(n)]
Busy == DOMAIN Asks \cup {"ranone", "rabad", "radate", "rafloat", "rahuge"}
WaitMs(a) == IF a \in DOMAIN Asks THEN 1000 * Asks[a] ELSE 2000

(* how many requests a script takes: up to and including the first answer   *)
(* that is not "too many requests"                                          *)
RECURSIVE Uses(_)
Uses(script) == IF script[1] \in Busy THEN 1 + Uses(Tail(script)) ELSE 1
Final(script) == script[Uses(script)]

(* cache: function from items to content (0: nothing cached)                *)
GetNext(cache, item, script, c) ==
    IF cache[item] # 0 THEN cache
    ELSE [cache EXCEPT ![item] = IF Final(script) = "ok" THEN c ELSE 0]
=============================================================================
