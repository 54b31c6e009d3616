-------------------------------- MODULE Refs --------------------------------
(* References of an article (P01).                                           *)
(*                                                                           *)
(* For every group of references: how many there are, which number each name *)
(* has, the text of each number and which numbers a list has shown. A        *)
(* reference is given with its text, unnamed or with a name, or used by its  *)
(* name; the text of a name may come after its first use, even in the list   *)
(* itself. A list shows those not shown yet.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS GroupNames,  \* "" is the default group
          Names,
          Spellings,   \* how tags are written: records [tag, lead, eq, q, last, order, close]
          TextForms,   \* forms of a reference's text: [pre, post, tpre, tpost]
          Carriers,    \* what a mark stands in: [pre, post, tpre, tpost]
          ListForms,   \* "short": <references />, "long": <references></references>
          SameText,    \* whether a reference's text may be the one of others (or is different from all others)
          MaxOps, Random

VARIABLES src, out,
          refs,        \* group -> [names: name -> number, texts: number -> shown text, shown: numbers, count]
          words, ops, lists
vars == <<src, out, refs, words, ops, lists>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

(* ---- tags ---- *)
Quotable(s, v) == s.q # "" \/ v \notin {"a b", "Note 1"}     \* values with spaces need quotes
Attr(s, k, v) == " " \o k \o s.eq \o s.q \o v \o s.q
Attrs(s, g, n) == LET gs == IF g = "" THEN "" ELSE Attr(s, s.group, g)
                      ns == IF n = "" THEN "" ELSE Attr(s, s.name, n)
                  IN IF s.order = "name first" THEN ns \o gs ELSE gs \o ns
Def(s, g, n, t) == "<" \o s.tag \o Attrs(s, g, n) \o s.last \o ">" \o t \o "</" \o s.tag \o s.close \o ">"
Use(s, g, n) == "<" \o s.tag \o Attrs(s, g, n) \o s.last \o "/>"

(* ---- state of a group ---- *)
Fresh == [count |-> 0, names |-> << >>, texts |-> << >>, shown |-> {}]
Known(r, n) == n \in DOMAIN r.names
NumberOf(r, n) == IF Known(r, n) THEN r.names[n] ELSE r.count + 1
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Named(r, n) == IF Known(r, n) THEN r ELSE [r EXCEPT !.names = Extend(r.names, n, r.count + 1), !.count = r.count + 1]
WithText(r, num, t) == [r EXCEPT !.texts = Extend(r.texts, num, t)]
Missing(r) == {n \in DOMAIN r.names : r.names[n] \notin DOMAIN r.texts}
Open(r) == (1..r.count) \ r.shown

Mark(num) == "[" \o ToString(num) \o "]"
Word == "w" \o ToString(words)
TextOf(f, k) == f.pre \o "t" \o ToString(k) \o f.post
ShownText(f, k) == f.tpre \o "t" \o ToString(k) \o f.tpost

RECURSIVE Entries(_, _, _)
Entries(r, nums, k) == IF k > r.count THEN ""
                       ELSE (IF k \in nums THEN " " \o Mark(k) \o " " \o r.texts[k] \o "<br>" ELSE "") \o Entries(r, nums, k + 1)

Init == /\ src = "" /\ out = "" /\ words = 1 /\ ops = 0 /\ lists = 0
        /\ refs = [g \in GroupNames |-> Fresh]

Carried(c, tag, num) ==
    /\ src' = src \o c.pre \o Word \o tag \o c.post
    /\ out' = out \o c.tpre \o Word \o Mark(num) \o c.tpost
    /\ words' = words + 1 /\ ops' = ops + 1 /\ UNCHANGED lists

(* k: the number of the text *)
Unnamed(g, s, f, c, k) ==
    /\ Quotable(s, g)
    /\ refs' = [refs EXCEPT ![g] = WithText([refs[g] EXCEPT !.count = refs[g].count + 1], refs[g].count + 1, ShownText(f, k))]
    /\ Carried(c, Def(s, g, "", TextOf(f, k)), refs[g].count + 1)

Definition(g, n, s, f, c, k) ==
    /\ Quotable(s, g) /\ Quotable(s, n)
    /\ ~Known(refs[g], n) \/ n \in Missing(refs[g])
    /\ LET num == NumberOf(refs[g], n)
       IN /\ refs' = [refs EXCEPT ![g] = WithText(Named(refs[g], n), num, ShownText(f, k))]
          /\ Carried(c, Def(s, g, n, TextOf(f, k)), num)

Usage(g, n, s, c) ==
    /\ Quotable(s, g) /\ Quotable(s, n)
    /\ refs' = [refs EXCEPT ![g] = Named(refs[g], n)]
    /\ Carried(c, Use(s, g, n), NumberOf(refs[g], n))

(* the definitions within a list, of all names without a text *)
RECURSIVE Inner(_, _, _, _, _)
Inner(r, ns, s, g, f) ==
    IF ns = {} THEN ""
    ELSE LET n == CHOOSE x \in ns : TRUE
         IN "\n" \o Def(s, g, n, f.pre \o "inner" \o ToString(r.names[n]) \o f.post) \o Inner(r, ns \ {n}, s, g, f)
RECURSIVE Complete(_, _, _)
Complete(r, ns, f) ==
    IF ns = {} THEN r
    ELSE LET n == CHOOSE x \in ns : TRUE
         IN Complete(WithText(r, r.names[n], f.tpre \o "inner" \o ToString(r.names[n]) \o f.tpost), ns \ {n}, f)

(* own: the definitions within the list name the group, too *)
List(g, s, f, form, own) ==
    /\ Quotable(s, g)
    /\ \A n \in Missing(refs[g]) : Quotable(s, n)
    /\ Open(refs[g]) # {} \/ refs[g].count > 0
    /\ Missing(refs[g]) # {} => form = "long"
    /\ LET r == Complete(refs[g], Missing(refs[g]), f)
           tag == IF s.tag = "ref" THEN "references" ELSE "REFERENCES"
       IN /\ src' = src \o "\n" \o
                    (IF form = "short" THEN "<" \o tag \o Attrs(s, g, "") \o s.last \o "/>"
                     ELSE "<" \o tag \o Attrs(s, g, "") \o s.last \o ">"
                          \o Inner(refs[g], Missing(refs[g]), s, IF own THEN g ELSE "", f) \o "\n</" \o tag \o s.close \o ">")
                    \o "\n"
          /\ out' = out \o Entries(r, Open(r), 1)
          /\ refs' = [refs EXCEPT ![g] = [r EXCEPT !.shown = 1..r.count]]
    /\ lists' = lists + 1 /\ ops' = ops + 1 /\ UNCHANGED words

(* With Random, the lists come at the end. *)
Late == Random /\ ops > MaxOps - 4
Pending == {g \in GroupNames : Open(refs[g]) # {}}

Next == /\ ops < MaxOps
        /\ Late => Pending # {}
        /\ \E g \in Some(IF Late THEN Pending ELSE GroupNames), s \in Some(Spellings), f \in Some(TextForms), c \in Some(Carriers), n \in Some(Names) :
           \E same \in Some(SameText) : LET text == IF same THEN 1 ELSE words IN
           \E k \in (IF Late THEN {"list"} ELSE {"unnamed", "definition", "usage", "list"}) :
              \/ k = "unnamed" /\ Unnamed(g, s, f, c, text)
              \/ k = "definition" /\ Definition(g, n, s, f, c, text)
              \/ k = "usage" /\ Usage(g, n, s, c)
              \/ k = "list" /\ \E form \in Some(ListForms), own \in Some(BOOLEAN) : List(g, s, f, form, own)

(* every reference has been shown *)
Finished == lists > 0 /\ \A g \in GroupNames : Open(refs[g]) = {}

Emit == Finished => PrintT("@@" \o ToJson([n |-> "references", t |-> src \o "end", x |-> out \o " end"]))

(* Design: numbers are given out without gaps, no two names share one, and what a list shows has a text. *)
Numbers == \A g \in GroupNames :
             /\ \A n \in DOMAIN refs[g].names : refs[g].names[n] \in 1..refs[g].count
             /\ \A a, b \in DOMAIN refs[g].names : a # b => refs[g].names[a] # refs[g].names[b]
             /\ refs[g].shown \subseteq DOMAIN refs[g].texts
             /\ \A k \in 1..refs[g].count : k \in DOMAIN refs[g].texts \/ \E n \in DOMAIN refs[g].names : refs[g].names[n] = k
=============================================================================
