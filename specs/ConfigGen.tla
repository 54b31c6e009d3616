----------------------------- MODULE ConfigGen ------------------------------
(* Random configurations with their expected effect, for replay.            *)
EXTENDS Config, Json
CONSTANTS Focus, Modes
VARIABLES c, stage
vars == <<c, stage>>

Pick(S) == RandomElement(S)
Empty == [n \in {} |-> ""]
Choices(n, cli) ==
    LET s == Of(n)
    IN  CASE s.k = "path" -> {<<f>> : f \in PathForms(n)} \cup (IF n = "font-files" THEN {<<[u |-> "down", p |-> "f1.ttf"], [u |-> "abs", p |-> "sub/f*.ttf"]>>, <<[u |-> "up", p |-> "sub/f*.ttf"], [u |-> "dot", p |-> "f1.ttf"]>>} ELSE {})
          [] OTHER -> (s.alts \cup {s.def}) \ (IF cli THEN {"[]"} ELSE {})
(* which settings a layer sets                                              *)
Chosen == CASE Focus = "paths" -> {n \in Names : Of(n).k = "path" /\ Pick(1..3) # 1}
            [] Focus = "pandoc" -> {n \in {"style-file", "cover-image", "font-files", "pandoc-data-dir", "toc-depth", "cache-dir", "pandoc-executable", "wikipedia-instance"} : Pick(1..5) \in {1, 2}}
            [] Focus \in {"invalid", "defect"} -> {n \in Names : Pick(1..12) = 1}
            [] OTHER -> {n \in Names : Pick(1..4) # 1}
TypePairs == {<<t, d>> : t \in {"\"epub2\"", "\"epub3\"", "\"stats-json\"", "\"stats-txt\"", "\"pdf\"", "\"\"", ""}, d \in {"\"pandoc\"", "\"internal\"", "\"Pandoc\"", ""}}
(* output type and driver together, so that most layers fit                 *)
WithTypes(layer, tp) ==
    LET rest == [n \in DOMAIN layer \ {"output-type", "output-driver"} |-> layer[n]]
    IN  (IF tp[1] = "" THEN Empty ELSE "output-type" :> tp[1]) @@ (IF tp[2] = "" THEN Empty ELSE "output-driver" :> tp[2]) @@ rest
Allowed(below, tp, mode, l) ==
    LET t == IF tp[1] = "" \/ (l > 1 /\ tp[1] = "\"epub2\"") THEN below[1] ELSE tp[1]
        d == IF tp[2] = "" \/ (l > 1 /\ tp[2] = "\"pandoc\"") THEN below[2] ELSE tp[2]
    IN  Fits(t, d) /\ (mode = "standalone" \/ Focus \in {"pandoc", "paths"} => d = "\"pandoc\"")
(* Pick gives another value whenever it is evaluated: it is bound by \E     *)
Layers1(below, mode, l, cli) == {WithTypes([n \in set |-> Pick(Choices(n, cli))], Pick({<<"", "">>} \cup {p \in TypePairs : Allowed(below, p, mode, l)})) : set \in {Chosen}}
Below(x) == <<x["output-type"], x["output-driver"]>>

(* What can be wrong with the text of a file: it breaks off, holds no JSON,
   more than one value, a list, a wrong type, or near misses of JSON       *)
BadTexts == {"cut", "half", "empty", "tail", "two", "comma", "comment", "list", "typed"}
Forms(o) == {[u |-> u, p |-> p, dir |-> FALSE] : u \in {"down", "dot", "up", "abs"}, p \in o} \cup {[u |-> u, p |-> "outdir", dir |-> TRUE] : u \in {"down", "abs"}}
OutNames(t) == CASE t = "\"stats-json\"" -> {"o.json"} [] t = "\"stats-txt\"" -> {"n/o.txt"} [] OTHER -> {"o.epub", "new/o 2.epub"}
Texts == {"", "A title", "\"Quotes\" & <tags>", "Ünï = cödé; $HOME", "--toc", "a: b, 'c'", "x=y=z", "two\nlines"}
Init == c = <<>> /\ stage = "start"

Begin ==
    /\ stage = "start"
    /\ \E mode \in Modes, conf \in {"@/c/conf", "@/start", "@/p/proj"}, start \in {"@/start", "@/p/proj"}, hasFile \in BOOLEAN, n \in 1..3, ca \in {"rel", "abs"}, pa \in {"rel", "abs"} :
        c' = [mode |-> mode, conf |-> conf, start |-> start, hasFile |-> hasFile, file |-> Empty, proj |-> Empty, cli |-> Empty, defect |-> "none", cliOut |-> <<>>, projOut |-> <<>>,
              arts |-> IF mode = "project" THEN n ELSE 1, cfgArg |-> ca, projArg |-> pa, meta |-> [title |-> "", author |-> "", license |-> "", language |-> "", date |-> ""]]
    /\ stage' = "layers"
MakeLayers ==
    /\ stage = "layers"
    /\ \E f \in IF c.hasFile THEN Layers1(Below(Defaults), c.mode, 1, FALSE) ELSE {Empty} :
       \E l1 \in {Replaced(Defaults, f, c.conf)} :
       \E p \in IF c.mode = "project" THEN Layers1(Below(l1), c.mode, 2, FALSE) ELSE {Empty} :
       \E l2 \in {Over(l1, p, "@/p/proj")} :
       \E x \in Layers1(Below(l2), c.mode, 3, TRUE) :
          c' = [c EXCEPT !.file = f, !.proj = p, !.cli = x]
    /\ stage' = "spoil"
Set(l, n, v) == IF l = "file" THEN [c EXCEPT !.file = (n :> v) @@ @, !.hasFile = TRUE] ELSE IF l = "proj" /\ c.mode = "project" THEN [c EXCEPT !.proj = (n :> v) @@ @] ELSE [c EXCEPT !.cli = (n :> v) @@ @]
Spoil ==
    /\ stage = "spoil"
    /\ IF Focus \notin {"invalid", "defect"} \/ (Focus = "invalid" /\ Pick(1..4) = 1) THEN c' = c
       ELSE \E what \in {IF Focus = "defect" THEN "defect" ELSE Pick({"value", "value2", "value3", "pair", "pair2", "missing", "defect"})}, l \in {Pick({"file", "proj", "cli"})}, n \in {Pick({x \in Names : Of(x).bad # {}})},
               m \in {Pick(PathNames \ {"cache-dir"})}, tp \in {Pick(TypePairs \ {<<"", "">>})} :
               CASE what \in {"value", "value2", "value3"} -> \E v \in {Pick(Of(n).bad)} : c' = Set(l, n, v)
                 [] what = "missing" -> c' = Set(l, m, <<[u |-> "abs", p |-> "missing"]>>)
                 [] what \in {"pair", "pair2"} -> c' = IF l = "file" THEN [c EXCEPT !.file = WithTypes(@, tp), !.hasFile = TRUE]
                                                       ELSE IF l = "proj" /\ c.mode = "project" THEN [c EXCEPT !.proj = WithTypes(@, tp)] ELSE [c EXCEPT !.cli = WithTypes(@, tp)]
                 [] OTHER -> \E d \in {Pick(Pick({{x \o "-config" : x \in BadTexts \cup {"no", "dir"}}} \cup (IF c.mode = "project" THEN {{x \o "-project" : x \in BadTexts \cup {"no"}}} ELSE {})
                                             \cup {(IF c.mode = "standalone" THEN {"no-input"} ELSE {}) \cup {"bad-flag", "typed-flag", "bad-logging", "no-args"}}))} : c' = [c EXCEPT !.defect = d]
    /\ stage' = "rest"
Rest ==
    /\ stage = "rest"
    /\ LET t == Effective(c)["output-type"]
           fs == {x \in Forms(OutNames(t)) : ~(x.dir /\ IsStats(t))}
       IN  c' = [c EXCEPT !.cliOut = IF Pick(1..2) = 1 THEN <<>> ELSE <<Pick(fs)>>,
                          !.projOut = IF c.mode # "project" \/ Pick(1..4) = 1 THEN <<>> ELSE <<Pick(fs)>>,
                          !.meta = IF c.mode # "project" THEN @ ELSE [k \in DOMAIN @ |-> Pick(Texts)]]
    /\ stage' = "emit"
WrittenLayer(l) == [n \in DOMAIN l |-> IF Of(n).k = "path" THEN [paths |-> [i \in DOMAIN l[n] |-> Written(l[n][i])]] ELSE [json |-> l[n]]]
Shown(e) == [n \in Names |-> IF Of(n).k = "path" THEN [paths |-> e[n]] ELSE [json |-> e[n]]]
Expected == [accepted |-> Accepted(c), effective |-> Shown(Effective(c)), output |-> Output(c)]
Done ==
    /\ stage = "emit"
    /\ IF c.mode = "standalone" /\ Accepted(c) /\ Effective(c)["output-driver"] # "\"pandoc\"" THEN TRUE   \* makes no statistics, and no request
       ELSE PrintT("@@" \o ToJson([case |-> [c EXCEPT !.file = WrittenLayer(c.file), !.proj = WrittenLayer(c.proj), !.cli = WrittenLayer(c.cli),
                                        !.cliOut = [i \in DOMAIN @ |-> Written(@[i])], !.projOut = [i \in DOMAIN @ |-> Written(@[i])]], want |-> Expected]))
    /\ stage' = "done" /\ UNCHANGED c
Next == Begin \/ MakeLayers \/ Spoil \/ Rest \/ Done
=============================================================================
