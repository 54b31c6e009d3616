-------------------------------- MODULE Book --------------------------------
(* What a user relies on when wiki2book makes books, run after run on the   *)
(* same cache, whatever the workers do, fails, or is killed.                *)
(*                                                                          *)
(* pr     the project of the run                                            *)
(* phase  idle (no run), run, book (the generator works), made, broken      *)
(* sure   steps whose results the cache is known to hold                    *)
(* open   number of started steps that have not been answered               *)
(* failed whether a step failed in this run                                 *)
(* begun, ended  the steps of this run that were started, and that succeeded*)
(* half   images whose work was interrupted by the end of a run             *)
EXTENDS Content

CONSTANT Leftovers   \* TRUE: known finding: what an interrupted run leaves of an image is used as it is
VARIABLES pr, phase, sure, open, failed, begun, ended, half
bookVars == <<pr, phase, sure, open, failed, begun, ended, half>>

NoProject == [arts |-> <<>>, content |-> <<>>, conv |-> {}, proc |-> FALSE, math |-> "none"]
BookInit == /\ pr = NoProject /\ phase = "idle" /\ sure = {} /\ open = 0 /\ failed = FALSE
            /\ begun = {} /\ ended = {} /\ half = {}

Start(p) == /\ phase = "idle" /\ phase' = "run" /\ pr' = p /\ open' = 0 /\ failed' = FALSE
            /\ begun' = {} /\ ended' = {}
            /\ UNCHANGED <<sure, half>>

(* Only what the project needs, and nothing that is in the cache, is        *)
(* requested, converted or processed. (Formulas are converted every time.)  *)
Begin(s) == /\ phase = "run" /\ s \in Needed(pr) /\ (s \notin sure \/ s.k = "mconv")
            /\ open' = open + 1 /\ begun' = begun \cup {s} /\ UNCHANGED <<pr, phase, sure, failed, ended, half>>
End(s, ok) == /\ phase = "run" /\ open > 0 /\ s \in begun
              /\ open' = open - 1 /\ failed' = (failed \/ ~ok)
              /\ ended' = (IF ok THEN ended \cup {s} ELSE ended)
              /\ UNCHANGED <<pr, phase, sure, begun, half>>

(* The book is assembled when everything is done, and only then, from       *)
(* exactly the chapters of the listed articles.                             *)
LeftoversOf(n) == {RawImage(n), Of("conv" \o Ext(n), RawImage(n)), "unfinished"}
Same(have, want) == \/ have = want
                    \/ Leftovers /\ \E n \in half : want = Picture(pr, n) /\ have \in LeftoversOf(n)
Matches(have, want) == /\ Len(have) = Len(want)
                       /\ \A i \in DOMAIN want : Len(have[i]) = Len(want[i]) /\ \A j \in DOMAIN want[i] : Same(have[i][j], want[i][j])
Assemble(chapters) == /\ phase = "run" /\ ~failed /\ open = 0 /\ Matches(chapters, Chapters(pr))
                      /\ phase' = "book" /\ UNCHANGED <<pr, sure, open, failed, begun, ended, half>>
Assembled(ok) == /\ phase = "book" /\ phase' = (IF ok THEN "made" ELSE "broken")
                 /\ UNCHANGED <<pr, sure, open, failed, begun, ended, half>>

(* the last step an image needs; an image is interrupted if it was begun    *)
(* but this step did not succeed                                            *)
Last(n) == IF Processed(pr, n) THEN S("proc", n) ELSE IF Converted(pr, n) THEN S("conv", n) ELSE S("ifile", n)
Interrupted == {n \in {s.n : s \in {x \in begun : x.k \in {"ifile", "conv", "proc"}}} : Last(n) \notin ended}

(* Success is reported if and only if the book was made.                    *)
Exit(ok) == /\ IF ok THEN phase = "made" ELSE phase = "broken" \/ (phase = "run" /\ failed)
            /\ phase' = "idle" /\ open' = 0
            /\ sure' = IF ok THEN sure \cup Needed(pr) ELSE sure
            /\ half' = IF ok THEN half ELSE half \cup Interrupted
            /\ UNCHANGED <<pr, failed, begun, ended>>
Kill == /\ phase # "idle" /\ phase' = "idle" /\ open' = 0 /\ half' = half \cup Interrupted
        /\ UNCHANGED <<pr, sure, failed, begun, ended>>

=============================================================================
