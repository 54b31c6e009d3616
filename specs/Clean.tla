------------------------------- MODULE Clean --------------------------------
(* What disappears from an article and what stays (P06).                     *)
(*                                                                           *)
(* An article is a sequence of lines, each made of pieces: some stay, some   *)
(* go (comments, categories, links to other languages, ignored templates and *)
(* media). Lines only of comments vanish as a whole, so do list entries and  *)
(* sections without content. Where it is a matter of taste what happens, the *)
(* specification allows all of it: whether a line emptied otherwise makes a  *)
(* new paragraph or list, whether a section goes which has only empty        *)
(* sections or only ignored media, and whether a line only of bold text goes *)
(* as a heading would.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pieces,      \* records [k |-> "keep", "drop", "media" or "comment", pre, post, tpre, tpost]
          Lists,       \* records [p |-> prefix, open, close, iopen, iclose]
          Blocks,      \* records [pre, post, tpre, tpost]: lines which are constructs of their own
          Headings,    \* records [d |-> depth, pre, post, tpre, tpost]
          Kinds,       \* kinds of lines to use
          MaxLines, MaxPieces, Random, Setting

VARIABLES lines, words
vars == <<lines, words>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

(* a line: kind; l: form of its list or heading; src and h: text of its pieces; has: kinds of its pieces *)
Init == lines = <<>> /\ words = 1

W == "w" \o ToString(words)
Source(p) == IF p.k = "keep" THEN p.pre \o W \o p.post ELSE p.pre
Shown(p) == IF p.k = "keep" THEN p.tpre \o W \o p.tpost ELSE ""

NoForm == [d |-> 0, p |-> "", pre |-> "", post |-> "", tpre |-> "", tpost |-> "", open |-> "", close |-> "", iopen |-> "", iclose |-> ""]
Line(k, f, src, h, has) == [kind |-> k, l |-> f, src |-> src, h |-> h, has |-> has]

Start(k) ==
    /\ \/ k = "blank" /\ lines' = Append(lines, Line(k, NoForm, "", "", {})) /\ UNCHANGED words
       \/ k = "text" /\ \E p \in Some(Pieces) : lines' = Append(lines, Line(k, NoForm, Source(p), Shown(p), {p.k}))
                     /\ words' = words + 1
       \/ k = "list" /\ \E l \in Some(Lists), p \in Some({p \in Pieces : p.k # "media"}) :
                        lines' = Append(lines, Line(k, l, l.p \o " " \o Source(p), Shown(p), {p.k}))
                     /\ words' = words + 1
       \/ k = "entry" /\ \E l \in Some(Lists) : lines' = Append(lines, Line("list", l, l.p, "", {}))
                     /\ UNCHANGED words
       \/ k = "heading" /\ \E f \in Some(Headings) : lines' = Append(lines, Line(k, f, f.pre \o W \o f.post, f.tpre \o W \o f.tpost, {}))
                     /\ words' = words + 1
       \/ k = "bold" /\ lines' = Append(lines, Line(k, NoForm, "'''" \o W \o "'''", "<b>" \o W \o "</b>", {}))
                     /\ words' = words + 1
       \/ k = "block" /\ \E b \in Some(Blocks) : lines' = Append(lines, Line(k, NoForm, b.pre \o W \o b.post, b.tpre \o W \o b.tpost, {}))
                     /\ words' = words + 1

(* one more piece at the end of the last line *)
More == /\ lines # <<>>
        /\ LET n == Len(lines)
               line == lines[n]
           IN /\ line.kind \in {"text", "list"} /\ line.has # {} /\ Cardinality(line.has) < MaxPieces
              /\ \E p \in Some({p \in Pieces : p.k \notin line.has /\ (line.kind = "list" => p.k # "media")}) :
                 lines' = [lines EXCEPT ![n] = [@ EXCEPT !.src = @ \o " " \o Source(p), !.h = @ \o " " \o Shown(p), !.has = @ \cup {p.k}]]
        /\ words' = words + 1

CanMore == lines # <<>> /\ lines[Len(lines)].has # {} /\ Cardinality(lines[Len(lines)].has) < MaxPieces

\* (the guard keeps TLC from choosing a kind once and for all)
Next == \/ Len(lines) < MaxLines /\ \E k \in Some(Kinds) : Start(k)
        \/ CanMore /\ More

(* What becomes of the lines. A line only of comments is no line at all. *)
Gone(line) == \/ line.kind = "text" /\ line.has = {"comment"}
              \/ line.kind = "list" /\ "keep" \notin line.has
(* An emptied list entry ends a paragraph or not, but does not end a list. *)
Kind(line) == IF line.kind = "text" THEN (IF "keep" \in line.has THEN "text" ELSE IF "media" \in line.has THEN "media" ELSE "soft")
              ELSE IF line.kind = "list" /\ "keep" \notin line.has THEN "emptied"
              ELSE line.kind
RECURSIVE Kept(_)
Kept(ls) == IF ls = <<>> THEN <<>>
            ELSE (IF ls[1].kind = "text" /\ ls[1].has = {"comment"} THEN <<>>
                  ELSE <<[k |-> Kind(ls[1]), l |-> ls[1].l, h |-> ls[1].h]>>) \o Kept(Tail(ls))

IsHead(e) == e.k \in {"heading", "bold"}
Depth(e) == IF e.k = "bold" THEN 10 ELSE e.l.d
IsContent(e) == e.k \in {"text", "list", "block"}

(* the section's own lines, and those of the sections within *)
Own(E, i) == {j \in (i + 1)..Len(E) : \A k \in (i + 1)..j : ~IsHead(E[k])}
Whole(E, i) == {j \in (i + 1)..Len(E) : \A k \in (i + 1)..j : ~(IsHead(E[k]) /\ Depth(E[k]) <= Depth(E[i]))}

Stays(E, i) == \/ \E j \in Own(E, i) : IsContent(E[j])
               \/ E[i].k = "heading" /\ \E j \in Whole(E, i) : IsContent(E[j])
Goes(E, i) == /\ E[i].k = "heading" /\ ~Stays(E, i)
              /\ \A j \in Whole(E, i) : E[j].k \notin {"heading", "bold", "media"}
Open(E) == {i \in 1..Len(E) : IsHead(E[i]) /\ ~Stays(E, i) /\ ~Goes(E, i)}

(* the document: without the sections in G; br: what makes a new paragraph besides blank lines; split: whether that makes a new list, too *)
RECURSIVE Render(_, _, _, _, _, _, _)
Render(E, i, G, br, split, prev, gap) ==
    \* prev: the kind of what was shown last; gap: what is between: "", "hard" (a blank line), "soft" (an emptied line), "entry" (an emptied list entry), "gone" (a section)
    LET closing == IF prev.k = "list" THEN prev.l.close ELSE ""
    IN IF i > Len(E) THEN closing
       ELSE LET e == E[i]
                Skip(g) == Render(E, i + 1, G, br, split, prev,
                                  IF gap \in {"hard", "gone"} \/ g = "" \/ (gap = "soft" /\ g = "entry") THEN gap ELSE g)
                Show(x) == x \o Render(E, i + 1, G, br, split, e, "")
            IN CASE e.k = "blank" -> Skip("hard")
                 [] e.k \in {"soft", "media"} -> Skip("soft")
                 [] e.k = "emptied" -> Skip(IF prev.k = "list" THEN "" ELSE "entry")
                 [] IsHead(e) /\ i \in G -> Skip("gone")     \* with the blank lines behind it
                 [] e.k \in {"text", "bold"} ->
                    Show((IF prev.k \in {"text", "bold"}
                          THEN (IF gap = "hard" \/ gap \in br THEN "<br><br>" ELSE " ") ELSE closing) \o e.h)
                 [] e.k = "list" ->
                    Show((IF prev.k = "list" /\ prev.l = e.l /\ (gap = "" \/ (gap # "hard" /\ ~split)) THEN ""
                          ELSE closing \o e.l.open) \o e.l.iopen \o e.h \o e.l.iclose)
                 [] OTHER -> Show(closing \o e.h)

Documents == LET E == Kept(lines)
                 gone == {i \in 1..Len(E) : IsHead(E[i]) /\ Goes(E, i)}
             IN {Render(E, 1, gone \cup G, br, split, [k |-> "", l |-> NoForm, h |-> ""], "") :
                 G \in SUBSET Open(E), br \in SUBSET {"soft", "entry", "gone"}, split \in BOOLEAN}

RECURSIVE Text(_)
Text(ls) == IF ls = <<>> THEN "" ELSE ls[1].src \o (IF Len(ls) > 1 THEN "\n" ELSE "") \o Text(Tail(ls))

Emit == (lines # <<>> /\ (Random => ~CanMore \/ Len(lines) > 2)) =>
        LET E == Kept(lines)
        IN Cardinality(Open(E)) <= 4 =>
           PrintT("@@" \o ToJson([n |-> "cleaning " \o Setting, t |-> Text(lines), x |-> Documents, m |-> [keep |-> "k {1}"]]))

(* Design: a heading with text below it never goes, one with nothing at all never stays. *)
Decided == LET E == Kept(lines)
           IN \A i \in 1..Len(E) : IsHead(E[i]) =>
                /\ (i < Len(E) /\ E[i + 1].k = "text") => Stays(E, i)
                /\ (i = Len(E) /\ E[i].k = "heading") => Goes(E, i)
=============================================================================
