-------------------------------- MODULE Doc ---------------------------------
(* Articles of all kinds of constructs in any combination (P07), and what    *)
(* there is to count in them (S01).                                          *)
(*                                                                           *)
(* An article is written from start to end: constructs are opened and closed *)
(* within each other as a table of kinds allows, with words and other simple *)
(* things in between. Alongside grows the document it has to become. Every   *)
(* word occurs once, so a document tells what was lost, moved or doubled.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,       \* records [n |-> name, is |-> classes it belongs to, may |-> classes of what may be in it,
                       \*   not |-> names of what must not be around it, pre, post, tpre, tpost, word |-> begins with a word,
                       \*   sep |-> what is between two of them,
                       \*   ref |-> is a reference, more |-> something else must follow it, c |-> what there is to count]
          Leaves,      \* records [n |-> name, is, not, pre, post, tpre, tpost, c]: simple things around a word of their own
          Lasting,     \* classes of which something else than the same must not follow in the same construct
          Bodies,      \* template -> body
          Least,       \* random articles have more operations than that
          MaxOps, MaxDepth, Random

VARIABLES frames, words, notes, ops, tally
vars == <<frames, words, notes, ops, tally>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

Root == [n |-> "", is |-> {}, may |-> {"block"}, not |-> {}, pre |-> "", post |-> "", tpre |-> "", tpost |-> "", word |-> FALSE,
         sep |-> "", ref |-> FALSE, more |-> FALSE]
(* what is counted: words, characters other than white space, links, external links, images, formulas, references, uses
   of them, and the linked articles *)
Nothing == [w |-> 0, ch |-> 0, l |-> 0, e |-> 0, i |-> 0, m |-> 0, d |-> 0, u |-> 0, pages |-> <<>>]
(* a frame: an open construct k, its text as written and as it becomes, the number of its note, whether something is in
   it, what was closed last in it *)
Frame(k, src, out, note, full) == [k |-> k, src |-> src, out |-> out, note |-> note, full |-> full, last |-> "", sep |-> "", lasting |-> {}, open |-> k.more]
Top == frames[Len(frames)]
W == "w" \o ToString(words)

Init == frames = <<Frame(Root, "", "", 0, FALSE)>> /\ words = 1 /\ notes = <<>> /\ ops = 0 /\ tally = Nothing

(* c of a construct: figures of its own, page |-> the article it links to ("" if none), self |-> the article is named as
   its word, shown |-> its word is shown *)
Add(c, word) ==
    LET n == IF word /\ c.shown THEN 1 ELSE 0
    IN tally' = [w |-> tally.w + c.w + n, ch |-> tally.ch + c.ch + n * Len(W), l |-> tally.l + c.l, e |-> tally.e + c.e,
                 i |-> tally.i + c.i, m |-> tally.m + c.m, d |-> tally.d + c.d, u |-> tally.u + c.u,
                 pages |-> tally.pages \o (IF c.self THEN <<W>> ELSE IF c.page # "" THEN <<c.page>> ELSE <<>>)]

Around == {frames[i].k.n : i \in 1..Len(frames)}
Fits(x) == /\ x.is \cap Top.k.may # {}
           /\ x.not \cap Around = {}
           /\ Top.lasting # {} => x.is \cap Top.lasting # {}

CanLeaf == {l \in Leaves : Fits(l)}
\* (deeper than allowed only what is needed)
CanOpen == IF Len(frames) > MaxDepth /\ (Top.full \/ CanLeaf # {}) THEN {}
           ELSE {k \in Kinds : Fits(k) /\ (Top.last = k.n => Top.lasting = {}) /\ (Top.open => ~k.more)}
CanClose == Len(frames) > 1 /\ Top.full /\ ~Top.open

Put(l) == /\ frames' = [frames EXCEPT ![Len(frames)] = [Top EXCEPT !.src = @ \o l.pre \o W \o l.post, !.out = @ \o l.tpre \o W \o l.tpost,
                                                                      !.full = TRUE, !.last = l.n, !.sep = "", !.open = FALSE]]
          /\ words' = words + 1 /\ ops' = ops + 1 /\ UNCHANGED notes /\ Add(l.c, TRUE)

Open(k) == /\ LET w == IF k.word THEN W \o " " ELSE ""
              IN frames' = Append(frames, Frame(k, k.pre \o w, (IF Top.sep = k.sep THEN k.sep ELSE "") \o (IF k.ref THEN "" ELSE k.tpre) \o w, IF k.ref THEN Len(notes) + 1 ELSE 0, k.word))
           /\ notes' = (IF k.ref THEN Append(notes, "") ELSE notes)
           /\ words' = words + 1 /\ ops' = ops + 1 /\ Add(k.c, k.word)

Close == /\ LET t == Top
                n == Len(frames) - 1
                p == frames[n]
            IN /\ frames' = SubSeq(frames, 1, n - 1) \o
                    <<[p EXCEPT !.src = @ \o t.src \o t.k.post,
                                !.out = @ \o (IF t.k.ref THEN "[" \o ToString(t.note) \o "]" \o t.k.tpost ELSE t.out \o t.k.tpost),
                                !.full = TRUE, !.last = t.k.n, !.sep = t.k.sep, !.open = t.k.more,
                                !.lasting = IF t.k.is \cap Lasting \cap p.k.may # {} THEN t.k.is \cap Lasting ELSE @]>>
               /\ notes' = (IF t.k.ref THEN [notes EXCEPT ![t.note] = t.out] ELSE notes)
         /\ UNCHANGED <<words, ops, tally>>

Steps == (IF CanLeaf # {} THEN {"leaf"} ELSE {}) \cup (IF CanOpen # {} THEN {"open"} ELSE {}) \cup (IF CanClose THEN {"close"} ELSE {})

Next == \/ /\ ops < MaxOps /\ Steps # {}
           /\ \E s \in Some(Steps) : \/ s = "leaf" /\ \E l \in Some(CanLeaf) : Put(l)
                                     \/ s = "open" /\ \E k \in Some(CanOpen) : Open(k)
                                     \/ s = "close" /\ Close
        \/ ops >= MaxOps /\ CanClose /\ Close
        \* what must not be left empty gets something simple
        \/ ops >= MaxOps /\ ~CanClose /\ Len(frames) > 1 /\ CanLeaf # {} /\ \E l \in Some(CanLeaf) : Put(l)
        \/ ops >= MaxOps /\ ~CanClose /\ CanOpen # {} /\ ((CanLeaf = {} /\ (Len(frames) > 1 \/ Top.open)) \/ (Random /\ Len(frames) = 1 /\ Top.open)) /\ \E k \in Some(CanOpen) : Open(k)

RECURSIVE Notes(_)
Notes(i) == IF i > Len(notes) THEN "" ELSE "[" \o ToString(i) \o "] " \o notes[i] \o "<br>" \o Notes(i + 1)

Complete == Len(frames) = 1 /\ Top.full /\ ~Top.open

Emit == (Complete /\ (Random => ops > Least)) =>
        PrintT("@@" \o ToJson([n |-> "article", t |-> Top.src \o (IF notes = <<>> THEN "" ELSE "\n\n<references />"),
            x |-> Top.out \o (IF notes = <<>> THEN "" ELSE " " \o Notes(1)), m |-> Bodies, k |-> tally]))

(* Design: constructs are closed in the opposite order, within what they may be in. *)
Nested == \A i \in 2..Len(frames) : frames[i].k.is \cap frames[i - 1].k.may # {} /\ frames[i].k.n # ""
=============================================================================
