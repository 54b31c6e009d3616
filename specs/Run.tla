-------------------------------- MODULE Run ---------------------------------
(* The design of wiki2book's run: worker threads take the listed articles   *)
(* in order; each fetches the article, expands its templates, fetches and   *)
(* processes its images and renders its formulas; image and formula work is *)
(* serialized per item; results go to a cache that survives the run; the    *)
(* first failure ends the whole process; the book is assembled when all     *)
(* workers are done.  The run may be killed at any time.                    *)
(*                                                                          *)
(* TLC checks that this design refines Book.                                *)
EXTENDS Book

CONSTANTS MaxWorkers, MaxRuns, Locks
VARIABLES workers,  \* number of worker threads of this run
          next,     \* next article of the list that no worker has taken
          ws,       \* per worker: [a: article or "", todo: tasks, rest: steps of the running task, busy: step or NoStep, lock: item]
          cache,    \* steps whose results are in the cache
          runs
runVars == <<workers, next, ws, cache, runs>>

NoStep == S("", "")
Idle == [a |-> "", todo |-> <<>>, rest |-> <<>>, busy |-> NoStep, lock |-> ""]

(* an article's tasks in the order of the code                              *)
RECURSIVE Tasks(_, _)
Tasks(kind, items) == IF items = <<>> THEN <<>> ELSE (IF Head(items).k = kind THEN <<S(kind, Head(items).n)>> ELSE <<>>) \o Tasks(kind, Tail(items))
(* galleries come first, then image maps, then the other images             *)
Images(items, as) == Tasks("img", SelectSeq(items, LAMBDA x : x.as \in as))
ArticleTasks(p, a) ==
    LET flat == Flatten(p.content[a])
    IN  <<S("page", a)>> \o Tasks("tmpl", p.content[a]) \o Uniq(Images(flat, {"gallery"}) \o Images(flat, {"map"}) \o Tasks("img", flat), {}) \o Tasks("math", flat)

(* what remains to be done for a task, given the cache: what is fetched is  *)
(* processed, what was fetched before is not                                *)
Missing(steps) == SelectSeq(steps, LAMBDA s : s \notin cache)
StepsOf(p, t) ==
    CASE t.k \in {"page", "tmpl"} -> Missing(<<t>>)
      [] t.k = "img" ->
            LET page == Missing(<<S("ipage", t.n)>>)
                fresh == S("ifile", t.n) \notin cache
                conv == Converted(p, t.n) /\ S("conv", t.n) \notin cache
                proc == Processed(p, t.n) /\ (IF Converted(p, t.n) THEN conv ELSE fresh)
            IN  page \o (IF fresh THEN <<S("ifile", t.n)>> ELSE <<>>) \o (IF conv THEN <<S("conv", t.n)>> ELSE <<>>)
                     \o (IF proc THEN <<S("proc", t.n)>> ELSE <<>>)
      [] t.k = "math" -> SelectSeq(MathSteps(p, t.n), LAMBDA s : s \notin cache \/ s.k = "mconv")
LockOf(t) == IF Locks /\ t.k \in {"img", "math"} THEN t.k \o t.n ELSE ""

RunInit == /\ BookInit
           /\ workers = 0 /\ next = 1 /\ ws = <<>> /\ cache = {} /\ runs = 0

StartRun(p, n) ==
    /\ runs < MaxRuns /\ runs' = runs + 1
    /\ Start(p)
    /\ workers' = n /\ next' = 1 /\ ws' = [w \in 1..n |-> Idle] /\ UNCHANGED cache

Take(w) == /\ phase = "run" /\ ws[w] = Idle /\ next <= Len(pr.arts)
           /\ ws' = [ws EXCEPT ![w] = [Idle EXCEPT !.a = pr.arts[next], !.todo = ArticleTasks(pr, pr.arts[next])]]
           /\ next' = next + 1
           /\ UNCHANGED <<bookVars, workers, cache, runs>>

(* begin the next task: nothing to do for it, or its first step             *)
Free(x) == x = "" \/ \A v \in DOMAIN ws : ws[v].lock # x
NextTask(w) ==
    /\ phase = "run" /\ ws[w].a # "" /\ ws[w].busy = NoStep /\ ws[w].rest = <<>> /\ ws[w].todo # <<>>
    /\ LET t == Head(ws[w].todo)
       IN  /\ Free(LockOf(t))
           /\ ws' = [ws EXCEPT ![w].todo = Tail(@), ![w].rest = StepsOf(pr, t), ![w].lock = IF StepsOf(pr, t) = <<>> THEN "" ELSE LockOf(t)]
    /\ UNCHANGED <<bookVars, workers, next, cache, runs>>
BeginStep(w) ==
    /\ phase = "run" /\ ws[w].busy = NoStep /\ ws[w].rest # <<>>
    /\ Begin(Head(ws[w].rest))
    /\ ws' = [ws EXCEPT ![w].busy = Head(ws[w].rest), ![w].rest = Tail(@)]
    /\ UNCHANGED <<workers, next, cache, runs>>
(* a picture whose processing fails is removed, so that it is made anew     *)
Undone(s) == IF s.k # "proc" THEN {} ELSE IF Converted(pr, s.n) THEN {S("conv", s.n)} ELSE {S("ifile", s.n)}
EndStep(w, ok) ==
    /\ phase = "run" /\ ws[w].busy # NoStep /\ ~failed
    /\ End(ws[w].busy, ok)
    /\ cache' = IF ok THEN cache \cup {ws[w].busy} ELSE cache \ Undone(ws[w].busy)
    /\ ws' = [ws EXCEPT ![w].busy = NoStep, ![w].lock = IF ws[w].rest = <<>> THEN "" ELSE @]
    /\ UNCHANGED <<workers, next, runs>>
FinishArticle(w) ==
    /\ phase = "run" /\ ws[w].a # "" /\ ws[w].busy = NoStep /\ ws[w].rest = <<>> /\ ws[w].todo = <<>>
    /\ ws' = [ws EXCEPT ![w] = Idle]
    /\ UNCHANGED <<bookVars, workers, next, cache, runs>>

(* what the chapters show: made from what is in the cache                   *)
HavePicture(n) ==
    LET raw == IF S("ifile", n) \in cache THEN RawImage(n) ELSE "MISSING"
        x == IF Converted(pr, n) THEN (IF S("conv", n) \in cache THEN Of("conv" \o Ext(n), raw) ELSE "MISSING") ELSE raw
    IN  IF S("proc", n) \in cache THEN Of("proc", x) ELSE x
HaveFormula(n) == IF Range(MathSteps(pr, n)) \subseteq cache THEN Formula(pr, n) ELSE "MISSING"
HaveShown(item) ==
    CASE item.k = "text" -> <<item.n>>
      [] item.k = "img" -> <<HavePicture(item.n)>>
      [] item.k = "math" -> <<HaveFormula(item.n)>>
RECURSIVE HaveAll(_)
HaveAll(items) == IF items = <<>> THEN <<>> ELSE HaveShown(Head(items)) \o HaveAll(Tail(items))
HaveChapters == [i \in DOMAIN pr.arts |-> <<"title " \o pr.arts[i]>> \o HaveAll(Flatten(pr.content[pr.arts[i]]))]

AllDone == phase = "run" /\ ~failed /\ next > Len(pr.arts) /\ \A w \in DOMAIN ws : ws[w] = Idle
AssembleBook == AllDone /\ Assemble(HaveChapters) /\ UNCHANGED runVars
BookAnswer(ok) == Assembled(ok) /\ UNCHANGED runVars
EndRun(ok) == Exit(ok) /\ ws' = <<>> /\ UNCHANGED <<workers, next, cache, runs>>
KillRun == Kill /\ ws' = <<>> /\ UNCHANGED <<workers, next, cache, runs>>

(* internal steps, taken without being observed                             *)
Silent == \E w \in DOMAIN ws : Take(w) \/ NextTask(w) \/ BeginStep(w) \/ FinishArticle(w)

(* The design never gets stuck: when every worker is done the book can be   *)
(* assembled (this fails if a chapter would be wrong), and every picture is *)
(* processed at most once.                                                  *)
Assemblable == AllDone => ENABLED AssembleBook
=============================================================================
