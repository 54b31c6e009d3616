----------------------------- MODULE ConfigOne ------------------------------
(* One setting (or output type and driver) at a time, exhaustively: every   *)
(* way in which the sources can set it.                                     *)
EXTENDS Config, Json
CONSTANTS Which, MaxSet, WithBad, Short
VARIABLES c, which, stage
vars == <<c, which, stage>>

Empty == [x \in {} |-> ""]
Group == IF which = "types" THEN {"output-type", "output-driver"} ELSE {which}
OneOf(x, cli) ==
    LET s == Of(x)
    IN  CASE s.k = "path" -> {<<f>> : f \in {g \in PathForms(x) : ~Short \/ g.p \in {"ca", "s1.css", "c1.png", "dd1", "f1.ttf"}}} \cup (IF WithBad /\ x # "cache-dir" THEN {<<[u |-> "abs", p |-> "missing"]>>} ELSE {})
          [] x = "output-type" -> {"\"epub2\"", "\"epub3\"", "\"stats-json\"", "\"stats-txt\"", "\"stats\""}
          [] x = "output-driver" -> {"\"pandoc\"", "\"internal\"", "\"none\""}
          [] OTHER -> (s.alts \cup {s.def} \cup (IF WithBad THEN s.bad ELSE {})) \ (IF cli THEN {"[]"} ELSE {})
Layers1(cli) == {Empty} \cup UNION {[S -> UNION {OneOf(x, cli) : x \in S}] : S \in SUBSET Group \ {{}}}
Fine(l, cli) == \A x \in DOMAIN l : l[x] \in OneOf(x, cli)
Count(x) == Cardinality({f \in {"file", "proj", "cli"} : DOMAIN x[f] # {}})

Init == /\ which \in Which /\ stage = "file"
        /\ c = [mode |-> "project", conf |-> "@/c/conf", start |-> "@/start", hasFile |-> TRUE, file |-> Empty, proj |-> Empty, cli |-> Empty, defect |-> "none", cliOut |-> <<>>, projOut |-> <<>>,
                arts |-> 1, cfgArg |-> "rel", projArg |-> "rel", meta |-> [title |-> "T", author |-> "", license |-> "", language |-> "", date |-> ""]]
Next ==
    \/ /\ stage = "file" /\ stage' = "proj" /\ which' = which /\ \E l \in Layers1(FALSE) : Fine(l, FALSE) /\ c' = [c EXCEPT !.file = l]
    \/ /\ stage = "proj" /\ stage' = "cli" /\ which' = which /\ \E l \in Layers1(FALSE) : Fine(l, FALSE) /\ c' = [c EXCEPT !.proj = l] /\ Count(c') <= MaxSet
    \/ /\ stage = "cli" /\ stage' = "done" /\ which' = which /\ \E l \in Layers1(TRUE) : Fine(l, TRUE) /\ c' = [c EXCEPT !.cli = l] /\ Count(c') <= MaxSet

(* What a user relies on, said without layers                               *)
Final == stage = "done"
SetsOther(l, base, x) == x \in DOMAIN l /\ Value(l, base, x) # Default(x)
MostSpecific == Final => LET e == Effective(c) IN \A x \in Names :
    e[x] = IF SetsOther(c.cli, c.start, x) THEN Value(c.cli, c.start, x)
                      ELSE IF SetsOther(c.proj, "@/p/proj", x) THEN Value(c.proj, "@/p/proj", x)
                      ELSE IF SetsOther(c.file, c.conf, x) THEN Value(c.file, c.conf, x) ELSE Default(x)
OthersUntouched == Final => LET e == Effective(c) IN \A x \in Names \ Group : e[x] = Default(x)
AcceptedIsValid == Final /\ Accepted(c) => LET e == Effective(c) IN Valid(e) /\ ~Missing(e)
(* a configuration without anything invalid in it is accepted               *)
NoFalseReject == Final /\ (\A l \in {c.file, c.proj, c.cli} : \A x \in DOMAIN l : l[x] \notin Of(x).bad /\ (Of(x).k = "path" => l[x][1].p # "missing")) /\ which # "types" => Accepted(c)

WrittenLayer(l) == [x \in DOMAIN l |-> IF Of(x).k = "path" THEN [paths |-> [i \in DOMAIN l[x] |-> Written(l[x][i])]] ELSE [json |-> l[x]]]
Shown(e) == [x \in Names |-> IF Of(x).k = "path" THEN [paths |-> e[x]] ELSE [json |-> e[x]]]
Emit == Final => PrintT("@@" \o ToJson([case |-> [c EXCEPT !.file = WrittenLayer(c.file), !.proj = WrittenLayer(c.proj), !.cli = WrittenLayer(c.cli)],
                                        want |-> [accepted |-> Accepted(c), effective |-> Shown(Effective(c)), output |-> Output(c)]]))
=============================================================================
