------------------------------- MODULE RunGen -------------------------------
(* Behaviours of Run, as schedules to be replayed on the program.           *)
EXTENDS Run, Json
CONSTANTS ArticleNames, Items, MaxItems, MaxArts, MinArts, Convs, Procs, Maths, WorkerCounts, Faults, Kills, BookFaults, SameArts, FaultAt, Eager
VARIABLES setup, hist, faults
vars == <<bookVars, runVars, setup, hist, faults>>

(* setup.stage: content of the articles item by item, then the list of each run *)
Init == /\ RunInit /\ hist = <<>> /\ faults = 0
        /\ setup = [stage |-> "cfg", content |-> [a \in Range(ArticleNames) |-> <<>>], i |-> 1, arts |-> <<>>, conv |-> {}, proc |-> FALSE, math |-> "none", at |-> 0, ends |-> 0]

Cfg == /\ setup.stage = "cfg"
       /\ \E cv \in Convs, pc \in Procs, mt \in Maths, at \in FaultAt :
            setup' = [setup EXCEPT !.stage = "content", !.conv = cv, !.proc = pc, !.math = mt, !.at = at]
AddItem == /\ setup.stage = "content" /\ Len(setup.content[ArticleNames[setup.i]]) < MaxItems
           /\ \E it \in Items : setup' = [setup EXCEPT !.content[ArticleNames[setup.i]] = Append(@, it)]
NextArt == /\ setup.stage = "content"
           /\ setup' = IF setup.i < Len(ArticleNames) THEN [setup EXCEPT !.i = @ + 1] ELSE [setup EXCEPT !.stage = "list", !.arts = <<>>]
AddArt == /\ setup.stage = "list" /\ Len(setup.arts) < MaxArts
          /\ \E a \in Range(ArticleNames) : setup' = [setup EXCEPT !.arts = Append(@, a)]
Go == /\ setup.stage = "list" /\ Len(setup.arts) >= MinArts
      /\ setup' = [setup EXCEPT !.stage = "run"]
Setup == (Cfg \/ AddItem \/ NextArt \/ AddArt \/ Go) /\ UNCHANGED <<bookVars, runVars, hist, faults>>

Project == [arts |-> setup.arts, content |-> setup.content, conv |-> setup.conv, proc |-> setup.proc, math |-> setup.math]
H(e, s, ok) == [e |-> e, k |-> s.k, n |-> s.n, ok |-> ok]
Log(x) == hist' = Append(hist, x)
Quiet == hist' = hist
(* faults happen after setup.at answered steps                              *)
Fault == faults < Faults /\ setup.ends = setup.at
Faulted == faults' = faults + 1 /\ UNCHANGED setup
Ended == setup' = [setup EXCEPT !.ends = @ + 1] /\ UNCHANGED faults
(* Eager: as on a fast machine, workers never pause: good for schedules     *)
Settled == Eager => ~ENABLED Silent
Runs ==
    /\ setup.stage = "run"
    /\ \/ \E n \in WorkerCounts : StartRun(Project, n) /\ Log([e |-> "start", w |-> n, arts |-> Project.arts]) /\ UNCHANGED <<setup, faults>>
       \/ Silent /\ Quiet /\ UNCHANGED <<setup, faults>>
       \/ ~Fault /\ Settled /\ \E w \in DOMAIN ws : EndStep(w, TRUE) /\ Log(H("end", ws[w].busy, TRUE)) /\ Ended
       \/ Fault /\ Settled /\ \E w \in DOMAIN ws : EndStep(w, FALSE) /\ Log(H("end", ws[w].busy, FALSE)) /\ Faulted
       \/ AssembleBook /\ Quiet /\ UNCHANGED <<setup, faults>>
       \/ BookAnswer(TRUE) /\ Log(H("book", NoStep, TRUE)) /\ UNCHANGED <<setup, faults>>
       \/ faults < Faults /\ BookFaults /\ BookAnswer(FALSE) /\ Log(H("book", NoStep, FALSE)) /\ Faulted
       \/ Kills /\ Fault /\ Settled /\ KillRun /\ Log(H("kill", NoStep, TRUE)) /\ Faulted
       \/ \E ok \in BOOLEAN : EndRun(ok) /\ Log(H("exit", NoStep, ok))
             /\ setup' = (IF SameArts THEN setup ELSE [setup EXCEPT !.stage = "list", !.arts = <<>>]) /\ UNCHANGED faults

Next == Setup \/ Runs
DesignView == <<bookVars, runVars, setup, faults>>
(* every step that is begun is needed and not in the cache already          *)
Allowed == \A w \in DOMAIN ws : ws[w].rest # <<>> /\ ws[w].busy = NoStep /\ phase = "run" =>
              LET s == Head(ws[w].rest) IN s \in Needed(pr) /\ (s \notin sure \/ s.k = "mconv")
(* no picture is converted or processed by two workers at the same time     *)
Once == \A v, w \in DOMAIN ws : v # w /\ ws[v].busy.k \in {"conv", "proc", "mconv"} => ws[v].busy # ws[w].busy
(* a run only stops when it is finished, failed or waiting for an answer    *)
NotStuck == setup.stage = "run" /\ phase = "run" /\ ~failed => ENABLED Next
Done == setup.stage # "cfg" /\ runs = MaxRuns /\ phase = "idle"
Emit == Done => PrintT("@@" \o ToJson([content |-> setup.content, conv |-> setup.conv, proc |-> setup.proc, math |-> setup.math, hist |-> hist]))
=============================================================================
