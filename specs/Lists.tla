------------------------------- MODULE Lists --------------------------------
(* Lists of wikitext (P02).                                                  *)
(*                                                                           *)
(* A list item is a line that starts with markers: * for bullets, # for      *)
(* numbers, ; for terms and : for descriptions, the n-th marker saying of    *)
(* which kind the list at depth n is. The state of a reader is the sequence  *)
(* of markers under which the lists are open. The next line keeps the lists  *)
(* open that it has in common with the line before, closes the others and    *)
(* opens those that are new. Any other line closes all of them. The          *)
(* specification makes the document alongside the wikitext.                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Prefixes,   \* the sequences of markers in use
          Forms,      \* forms of an item's text: records [pre, post, tpre, tpost, colon]
          Contexts,   \* records [n, pre, post, tpre, tpost]: what stands around the list
          Descriptions, \* what may follow in the text of a description behind its term
          MaxLines,
          Random      \* one random continuation instead of all

VARIABLES ctx, src, out,
          open,       \* markers of the open lists
          lines,      \* number of lines so far
          texts,      \* number of words so far
          inText      \* whether the line before is a line of text
vars == <<ctx, src, out, open, lines, texts, inText>>

ListOpen(m) == IF m = "*" THEN "<ul>" ELSE IF m = "#" THEN "<ol>" ELSE "<div class=description-list>"
ListClose(m) == IF m = "*" THEN "</ul>" ELSE IF m = "#" THEN "</ol>" ELSE "</div>"
ItemOpen(m) == IF m \in {"*", "#"} THEN "<li>" ELSE IF m = ";" THEN "<div class=dt>" ELSE "<div class=dd>"
ItemClose(m) == IF m \in {"*", "#"} THEN "</li>" ELSE "</div>"

(* terms and descriptions stand in the same list *)
SameList(a, b) == a = b \/ {a, b} = {";", ":"}

RECURSIVE Common(_, _, _)
Common(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ SameList(a[n + 1], b[n + 1]) THEN Common(a, b, n + 1) ELSE n

(* closes the open lists down to depth n *)
RECURSIVE Closing(_, _)
Closing(o, n) == IF Len(o) <= n THEN "" ELSE ItemClose(o[Len(o)]) \o ListClose(o[Len(o)]) \o Closing(SubSeq(o, 1, Len(o) - 1), n)

RECURSIVE Opening(_, _)
Opening(p, n) == IF n > Len(p) THEN "" ELSE ListOpen(p[n]) \o ItemOpen(p[n]) \o Opening(p, n + 1)

RECURSIVE Str(_)
Str(p) == IF p = <<>> THEN "" ELSE Head(p) \o Str(Tail(p))

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

Word(k) == "w" \o ToString(texts + k)

(* what a line with markers p does to the open lists: the tags, and the markers under which lists are open then *)
Tags(o, p) == LET c == Common(o, p, 0)
              IN IF c = Len(p)
                 THEN Closing(o, c) \o ItemClose(o[c]) \o ItemOpen(p[c])
                 ELSE Closing(o, c) \o Opening(p, c + 1)
(* the item at a depth that stays open keeps its kind *)
After(o, p) == LET c == Common(o, p, 0)
               IN IF c = Len(p) THEN SubSeq(o, 1, c - 1) \o <<p[c]>> ELSE SubSeq(o, 1, c) \o SubSeq(p, c + 1, Len(p))

(* Whether what follows a description under the marker of a term belongs to the description is left open. *)
Clear(o, p) == \A k \in 1..Common(o, p, 0) : k < Len(p) => p[k] = o[k]

Init == /\ ctx \in Some(Contexts)
        /\ src = "" /\ out = "" /\ open = <<>> /\ lines = 0 /\ texts = 0 /\ inText = FALSE

Item(p, f, gap) ==
    /\ Clear(open, p)
    /\ p[Len(p)] = ";" => ~f.colon       \* this would be a term with a description
    /\ src' = src \o Str(p) \o gap \o f.pre \o Word(1) \o f.post \o "\n"
    /\ out' = out \o Tags(open, p) \o f.tpre \o Word(1) \o f.tpost
    /\ open' = After(open, p)
    /\ lines' = lines + 1 /\ texts' = texts + 1 /\ inText' = FALSE
    /\ UNCHANGED ctx

(* "; term : description" in one line *)
TermWithDescription(p, d) ==
    /\ p[Len(p)] = ";" /\ Clear(open, p)
    /\ LET q == SubSeq(p, 1, Len(p) - 1) \o <<":">>
       IN /\ src' = src \o Str(p) \o " " \o Word(1) \o " : " \o Word(2) \o d \o "\n"
          /\ out' = out \o Tags(open, p) \o Word(1) \o Tags(After(open, p), q) \o Word(2) \o d
          /\ open' = After(After(open, p), q)
    /\ lines' = lines + 1 /\ texts' = texts + 2 /\ inText' = FALSE
    /\ UNCHANGED ctx

Text == /\ ~inText
        /\ src' = src \o Word(1) \o "\n"
        /\ out' = out \o Closing(open, 0) \o Word(1) \o " "
        /\ open' = <<>>
        /\ lines' = lines + 1 /\ texts' = texts + 1 /\ inText' = TRUE
        /\ UNCHANGED ctx

Blank == /\ open # <<>>
         /\ src' = src \o "\n"
         /\ out' = out \o Closing(open, 0)
         /\ open' = <<>>
         /\ lines' = lines + 1 /\ inText' = FALSE
         /\ UNCHANGED <<ctx, texts>>

Next == /\ lines < MaxLines
        /\ \/ \E p \in Some(Prefixes), f \in Some(Forms) : Item(p, f, IF lines % 2 = 1 THEN "" ELSE " ")
           \/ \E p \in Some(Prefixes), d \in Some(Descriptions) : TermWithDescription(p, d)
           \/ Text
           \/ Blank

Expected == ctx.tpre \o out \o Closing(open, 0) \o ctx.tpost

Emit == lines > 0 => PrintT("@@" \o ToJson([n |-> ctx.n, t |-> ctx.pre \o src \o ctx.post, x |-> Expected]))

(* Design: the lists open after a line are those of its markers. *)
Depth == Len(open) <= 7
=============================================================================
