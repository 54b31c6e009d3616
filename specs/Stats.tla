------------------------------- MODULE Stats --------------------------------
(* The statistics of a whole project (S01).                                  *)
(*                                                                           *)
(* A project is a sequence of articles, each of which links to others, of    *)
(* the project or not, and has other things there are to count. The total    *)
(* has the sum of every figure, and names the linked articles which are not  *)
(* in the project: all of them with their number of links, and the highest   *)
(* numbers as ranking.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Titles,     \* of articles there may be
          Others,     \* names of articles which are never part of the project
          Links,      \* ways to write a link: records [pre, mid, w]: pre \o name \o mid
          Things,     \* other things: records [t, w, e, i, m, d, u], those which are not 0
          Repeats,    \* how often something may be written in a row
          MaxArticles, MaxOps, Random

VARIABLES articles, ops
vars == <<articles, ops>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

\* bags of links: functions from names to numbers
Plus(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
NoLinks == [x \in {} |-> 0]

Figures == {"w", "l", "e", "i", "m", "d", "u"}
Blank(t) == [title |-> t, text |-> "", links |-> NoLinks, k |-> [f \in Figures |-> 0]]

Init == articles = <<>> /\ ops = 0

Used == {articles[i].title : i \in 1..Len(articles)}

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
NewArticle(t) == articles' = Append(articles, Blank(t))
AddLink(name, form, n) ==
    articles' = [articles EXCEPT ![Len(articles)] =
        [@ EXCEPT !.text = @ \o Times(form.pre \o name \o form.mid, n), !.links = Plus(@, name :> n),
                  !.k = [@ EXCEPT !["l"] = @ + n, !["w"] = @ + n * form.w]]]
AddThing(x, n) ==
    articles' = [articles EXCEPT ![Len(articles)] =
        [@ EXCEPT !.text = @ \o Times(x.t, n), !.k = [f \in Figures |-> IF f \in DOMAIN x THEN @[f] + n * x[f] ELSE @[f]]]]

Steps == (IF Len(articles) < MaxArticles /\ Titles \ Used # {} THEN {"article"} ELSE {})
         \cup (IF articles # <<>> THEN {"link"} \cup (IF Others # {} THEN {"link to other"} ELSE {}) \cup (IF Things # {} THEN {"thing"} ELSE {}) ELSE {})

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E s \in Some(Steps) :
              \/ s = "article" /\ \E t \in Some(Titles \ Used) : NewArticle(t)
              \/ s = "link" /\ \E name \in Some(Titles) : \E f \in Some(Links) : \E n \in Some(Repeats) : AddLink(name, f, n)
              \/ s = "link to other" /\ \E name \in Some(Others) : \E f \in Some(Links) : \E n \in Some(Repeats) : AddLink(name, f, n)
              \/ s = "thing" /\ \E x \in Some(Things) : \E n \in Some(Repeats) : AddThing(x, n)

RECURSIVE Linked(_)
Linked(i) == IF i = 0 THEN NoLinks ELSE Plus(Linked(i - 1), articles[i].links)
Listed(f) == SetToSeq({[name |-> x, n |-> f[x]] : x \in DOMAIN f})
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE Sum(f, i - 1) + articles[i].k[f]

All == Listed(Linked(Len(articles)))
Uncovered == SelectSeq(All, LAMBDA x : x.name \notin Used)
Ranking == SortSeq([i \in 1..Len(Uncovered) |-> Uncovered[i].n], LAMBDA a, b : a > b)

Emit == (articles # <<>> /\ (Random => ops = MaxOps)) =>
    PrintT("@@" \o ToJson([articles |-> [i \in 1..Len(articles) |-> [title |-> articles[i].title, text |-> articles[i].text \o (IF articles[i].k["d"] > 0 THEN "\n\n<references />" ELSE ""),
                                          links |-> Listed(articles[i].links), k |-> articles[i].k]],
                           k |-> [f \in Figures |-> Sum(f, Len(articles))],
                           links |-> All, uncovered |-> Uncovered, ranking |-> Ranking]))

(* Design: covered and uncovered links are all links, and what is in the ranking is not lower than what is not. *)
RECURSIVE Numbers(_, _)
Numbers(q, i) == IF i = 0 THEN 0 ELSE Numbers(q, i - 1) + q[i].n
Complete == (Random => ops = MaxOps) =>
            /\ Numbers(All, Len(All)) = Sum("l", Len(articles))
            /\ \A i \in 1..Len(Ranking) - 1 : Ranking[i] >= Ranking[i + 1]
            /\ \A i \in 1..Len(Uncovered) : Uncovered[i].name \notin Titles \/ Uncovered[i].name \notin Used
=============================================================================
