------------------------------ MODULE Templates -----------------------------
(* Template calls in an article (P05).                                       *)
(*                                                                           *)
(* A text is built piece by piece: words, calls, their arguments and further *)
(* calls within those. When a call is closed, the server's expansion of it   *)
(* takes its place: the template's body with the call's arguments. Ignored   *)
(* templates vanish, trailing ones leave their place for the article's end.  *)
(* Alongside, the specification keeps what would come out if the server got  *)
(* a placeholder instead of the expansion of a call within an argument; this *)
(* makes a difference only for templates that look into their arguments.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bodies,      \* template -> its body, a sequence of parts:
                       \*   [k |-> "text", w |-> wikitext, h |-> what it becomes in the document],
                       \*   [k |-> "arg", i |-> number], [k |-> "if", i |-> number, yes |-> text, no |-> text]
          Ignored,     \* spellings of ignored templates
          Trailing,    \* templates with bodies that are trailing ones
          Carriers,    \* records [pre, post, tpre, tpost, any]: where calls stand; any: with any form of arguments
          ArgForms,    \* records [pre, post, tpre, tpost, nl]: forms of words in arguments; nl: with a line break before them
          Others,      \* words of arguments besides those used once: calls are told apart by them
          Seps,        \* separators of arguments
          MaxOps, MaxDepth, Random

VARIABLES frames,      \* the open calls, outermost first; the first frame is the article itself
          carrier,     \* the carrier of the outermost open call
          words, ops
vars == <<frames, carrier, words, ops>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

(* A value: src: as written; w: as written, without ignored and trailing templates; h: what comes out; p: what would come
   out with placeholders; held: contains a placeholder; calls: the calls in it; tr: trailing templates found in it; nl: a line break was written in it. *)
Nothing == [src |-> "", w |-> "", h |-> "", p |-> "", held |-> FALSE, calls |-> {}, tr |-> <<>>, nl |-> FALSE]
Plain(s, t) == [Nothing EXCEPT !.src = s, !.w = s, !.h = t, !.p = t]
LineBreak == [Plain("\n", " ") EXCEPT !.nl = TRUE]
Join(a, b) == [src |-> a.src \o b.src, w |-> a.w \o b.w, h |-> a.h \o b.h, p |-> a.p \o b.p, held |-> a.held \/ b.held,
               calls |-> a.calls \cup b.calls, tr |-> a.tr \o b.tr, nl |-> a.nl \/ b.nl]

RECURSIVE BodyText(_)
BodyText(b) == IF b = <<>> THEN ""
               ELSE LET x == Head(b)
                    IN (IF x.k = "text" THEN x.w ELSE IF x.k = "arg" THEN "{" \o ToString(x.i) \o "}"
                        ELSE "{?" \o ToString(x.i) \o ":" \o x.yes \o ":" \o x.no \o "}") \o BodyText(Tail(b))

ArgOf(args, i) == IF i <= Len(args) THEN args[i] ELSE Nothing
RECURSIVE Expand(_, _), ExpandHeld(_, _)
Expand(b, args) ==
    IF b = <<>> THEN ""
    ELSE LET x == Head(b)
         IN (IF x.k = "text" THEN x.h ELSE IF x.k = "arg" THEN ArgOf(args, x.i).h
             ELSE IF ArgOf(args, x.i).h # "" THEN x.yes ELSE x.no) \o Expand(Tail(b), args)
ExpandHeld(b, args) ==
    IF b = <<>> THEN ""
    ELSE LET x == Head(b)
         IN (IF x.k = "text" THEN x.h ELSE IF x.k = "arg" THEN ArgOf(args, x.i).p
             ELSE IF ArgOf(args, x.i).p # "" \/ ArgOf(args, x.i).held THEN x.yes ELSE x.no) \o ExpandHeld(Tail(b), args)

RECURSIVE Sources(_), Writtens(_), AllCalls(_), AllTrailing(_)
Sources(fs) == IF fs = <<>> THEN "" ELSE Head(fs).sep \o Head(fs).v.src \o Sources(Tail(fs))
Writtens(fs) == IF fs = <<>> THEN "" ELSE Head(fs).sep \o Head(fs).v.w \o Writtens(Tail(fs))
AllCalls(fs) == IF fs = <<>> THEN {} ELSE Head(fs).v.calls \cup AllCalls(Tail(fs))
AllTrailing(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs).v.tr \o AllTrailing(Tail(fs))
Values(fs) == [i \in 1..Len(fs) |-> fs[i].v]

(* what a closed call is worth at its place *)
CallValue(f) ==
    LET src == "{{" \o f.name \o Sources(f.args) \o "}}"
        w == "{{" \o f.name \o Writtens(f.args) \o "}}"
        args == Values(f.args)
    IN IF f.name \in Ignored THEN [Nothing EXCEPT !.src = src]
       ELSE LET b == Bodies[f.name]
                v == [src |-> src, w |-> w, h |-> Expand(b, args), p |-> ExpandHeld(b, args), held |-> TRUE,
                      calls |-> AllCalls(f.args) \cup {w}, tr |-> <<>>, nl |-> \E i \in 1..Len(args) : args[i].nl]
            IN IF f.name \in Trailing THEN [Nothing EXCEPT !.src = src, !.tr = <<v>>, !.calls = v.calls]
               ELSE [v EXCEPT !.tr = AllTrailing(f.args)]

Init == /\ frames = <<[name |-> "", args |-> <<[sep |-> "", v |-> Nothing]>>]>>
        /\ carrier = [pre |-> "", post |-> "", tpre |-> "", tpost |-> "", any |-> TRUE] /\ words = 1 /\ ops = 0

Top == frames[Len(frames)]
InTrailing == \E i \in 1..Len(frames) : frames[i].name \in Trailing
(* v is added to the last argument of the innermost open call *)
Added(fs, v) == LET f == fs[Len(fs)]
                    k == Len(f.args)
                IN [fs EXCEPT ![Len(fs)] = [f EXCEPT !.args = [f.args EXCEPT ![k] = [@ EXCEPT !.v = Join(@, v)]]]]

(* At most one line break in a call, lest two of them meet and make a paragraph *)
HasBreak == \E i \in 2..Len(frames) : \E k \in 1..Len(frames[i].args) : frames[i].args[k].v.nl

Word(a, x) ==
           /\ Len(frames) = 1 \/ Len(Top.args) > 0
           /\ a.nl => ~HasBreak
           /\ LET w == IF x # "" /\ Len(frames) > 1 THEN x ELSE "w" \o ToString(words)
              IN frames' = Added(frames, IF Len(frames) = 1 THEN Plain(w \o " ", w \o " ")
                                         ELSE Join(IF a.nl THEN LineBreak ELSE Nothing, Plain(a.pre \o w \o a.post, a.tpre \o w \o a.tpost)))
           /\ words' = words + 1 /\ ops' = ops + 1 /\ UNCHANGED carrier

OpenCall(n, c) == /\ Len(frames) <= MaxDepth
                  /\ Len(frames) = 1 \/ Len(Top.args) > 0
                  /\ n \in Trailing => ~InTrailing
                  /\ frames' = Append(IF Len(frames) = 1 THEN Added(frames, Plain(c.pre, c.tpre)) ELSE frames,
                                      [name |-> n, args |-> <<>>])
                  /\ carrier' = (IF Len(frames) = 1 THEN c ELSE carrier)
                  /\ ops' = ops + 1 /\ UNCHANGED words

(* A line break before the separator belongs to the argument before it, or else to the name. *)
Argument(s) == /\ Len(frames) > 1 /\ Len(Top.args) < 3
               /\ LET k == Len(Top.args)
                      after == s = "\n|" /\ k > 0
                      old == IF after THEN [Top.args EXCEPT ![k] = [@ EXCEPT !.v = Join(@, LineBreak)]] ELSE Top.args
                  IN /\ after => Top.args[k].v.h # "" /\ ~HasBreak
                     /\ frames' = [frames EXCEPT ![Len(frames)] =
                                     [Top EXCEPT !.args = Append(old, [sep |-> IF after THEN "|" ELSE s, v |-> Nothing])]]
               /\ ops' = ops + 1 /\ UNCHANGED <<carrier, words>>

CloseCall == /\ Len(frames) > 1
             /\ LET outer == Added(SubSeq(frames, 1, Len(frames) - 1), CallValue(Top))
                IN frames' = (IF Len(frames) = 2 THEN Added(outer, Plain(carrier.post, carrier.tpost)) ELSE outer)
             /\ UNCHANGED <<carrier, words, ops>>

Kinds == (IF Len(frames) = 1 \/ Len(Top.args) > 0 THEN {"word"} ELSE {})
         \cup (IF Len(frames) <= MaxDepth /\ (Len(frames) = 1 \/ Len(Top.args) > 0) THEN {"open"} ELSE {})
         \cup (IF Len(frames) > 1 /\ Len(Top.args) < 3 THEN {"argument"} ELSE {})
         \cup (IF Len(frames) > 1 THEN {"close"} ELSE {})

Next == \/ /\ ops < MaxOps
           /\ \E k \in Some(Kinds) :
              \/ k = "word" /\ \E a \in Some({a \in ArgForms : (carrier.any \/ a.pre = "") /\ (HasBreak => ~a.nl)}),
                                    x \in Some(IF Len(frames) = 1 THEN {""} ELSE Others \cup {""}) : Word(a, x)
              \/ k = "open" /\ \E n \in Some((DOMAIN Bodies \cup Ignored) \ (IF InTrailing THEN Trailing ELSE {})), c \in Some(Carriers) : OpenCall(n, c)
              \/ k = "argument" /\ \E s \in Some(IF HasBreak \/ (Len(Top.args) > 0 /\ Top.args[Len(Top.args)].v.h = "") THEN {"|"} ELSE Seps) : Argument(s)
              \/ k = "close" /\ CloseCall
        \/ ops >= MaxOps /\ CloseCall

RECURSIVE TrailingText(_), TrailingHeld(_)
TrailingText(t) == IF t = <<>> THEN "" ELSE " " \o Head(t).h \o TrailingText(Tail(t))
TrailingHeld(t) == IF t = <<>> THEN "" ELSE " " \o Head(t).p \o TrailingHeld(Tail(t))

Article == frames[1].args[1].v

Emit == (Len(frames) = 1 /\ ops > 0) =>
        PrintT("@@" \o ToJson([n |-> "templates", t |-> Article.src \o "end",
            x |-> [doc |-> Article.h \o "end" \o TrailingText(Article.tr),
                   held |-> Article.p \o "end" \o TrailingHeld(Article.tr),
                   requests |-> Cardinality(Article.calls)],
            m |-> [n \in DOMAIN Bodies |-> BodyText(Bodies[n])]]))

(* Design: without a template that looks into its arguments, placeholders make no difference. *)
Transparent == LET v == frames[1].args[1].v
               IN (\A n \in DOMAIN Bodies : \A i \in 1..Len(Bodies[n]) : Bodies[n][i].k # "if") => v.h = v.p
=============================================================================
