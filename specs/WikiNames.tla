----------------------------- MODULE WikiNames ------------------------------
(* Which item is requested from which host, and which item's content is     *)
(* used, for articles, images and templates with any characters in their    *)
(* names.  Names are sequences of code points.                              *)
(*                                                                          *)
(* Per event: k (article, image, template), n the name or text asked for,   *)
(* reqs the requests that reached the servers (decoded), ok, title (what    *)
(* the article is called afterwards) and got: the item whose content was    *)
(* returned or stored.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"

VARIABLES t, l, cache
vars == <<t, l, cache>>

T == Traces[t]
Ev == T.events[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ cache = {}

Underscored(n) == [i \in 1..Len(n) |-> IF n[i] = 32 THEN 95 ELSE n[i]]
FilePrefix == <<70, 105, 108, 101, 58>>       \* "File:"
Item(k, h, n) == [k |-> k, h |-> h, n |-> n]

(* the server's rule for redirected image names, known to the harness too   *)
RECURSIVE Sum(_)
Sum(n) == IF n = <<>> THEN 0 ELSE n[1] + Sum(Tail(n))
Target(n) == IF Sum(n) % 3 = 0 THEN n \o <<82>> ELSE n

Once(items, x) == IF x \in items THEN <<>> ELSE <<x>>

Article(e) ==
    LET x == Item("page", T.host, Underscored(e.n))
    IN  /\ e.reqs = Once(cache, x) /\ e.ok /\ e.got = x /\ e.title = e.n
        /\ cache' = cache \cup {x}
Template(e) ==
    LET x == Item("template", T.host, e.n)
    IN  /\ e.reqs = Once(cache, x) /\ e.ok /\ e.got = x
        /\ cache' = cache \cup {x}
Image(e) ==
    LET n == Underscored(e.n)
        p == Item("page", T.imageHost, FilePrefix \o n)
        f == Item("file", T.imageHost, Target(n))
        stored == Item("stored", T.imageHost, n)
    IN  /\ e.reqs = Once(cache, p) \o (IF stored \in cache THEN <<>> ELSE <<f>>)
        /\ e.ok /\ e.got = f
        /\ cache' = cache \cup {p, stored}

Next == /\ l <= Len(T.events)
        /\ CASE Ev.k = "article" -> Article(Ev) [] Ev.k = "template" -> Template(Ev) [] Ev.k = "image" -> Image(Ev)
        /\ l' = l + 1 /\ t' = t

Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(T.events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
