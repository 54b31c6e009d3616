------------------------------- MODULE Quotes -------------------------------
(* Bold and italic text of one line of wikitext (P04).                       *)
(*                                                                           *)
(* A line consists of pieces of text and groups of two, three or five        *)
(* apostrophes between them. The state of a reader going through the line is *)
(* whether he is in bold and in italic text: two apostrophes toggle italic,  *)
(* three bold and five both. What has to come out is the text with the state *)
(* of every piece. Lines that leave bold or italic open at their end are not *)
(* generated. The line stands in a context (paragraph, list item, cell, ...) *)
(* that contributes text of its own; a link or a reference within bold text  *)
(* is a line of its own.                                                     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
          Contexts,   \* records [n, pre, post, tpre, tpost, groups, b, i]: what stands around the line (tpre, tpost: as it
                      \* comes out, pieces with their state), the groups possible in it and the state it has around it
          Texts,      \* forms of text: records [w, t]; "#" stands for the number of the piece
          MaxGroups,
          Random      \* one random continuation instead of all

VARIABLES ctx,        \* context of the line
          src,        \* the line so far
          segs,       \* what has to come out: text with its state
          bold, italic,
          groups,     \* number of groups so far
          last        \* what comes last in the line: "start", "group" or "text"
vars == <<ctx, src, segs, bold, italic, groups, last>>

Apostrophes(k) == IF k = 2 THEN "''" ELSE IF k = 3 THEN "'''" ELSE "'''''"

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

(* the words of the pieces are different: w1, w2, ... *)
Word == "w" \o ToString(Len(segs) + 1)

Init == /\ ctx \in Some(Contexts)
        /\ src = "" /\ segs = <<>> /\ bold = FALSE /\ italic = FALSE /\ groups = 0 /\ last = "start"

Text(f) == /\ last # "text"
           /\ groups = 0 => f.first      \* nothing that means something else at the start of a line
           /\ src' = src \o f.pre \o Word \o f.post
           /\ segs' = Append(segs, [s |-> f.tpre \o Word \o f.tpost, b |-> ctx.b \/ bold, i |-> ctx.i \/ italic])
           /\ last' = "text"
           /\ UNCHANGED <<ctx, bold, italic, groups>>

Group(k) == /\ last # "group"
            /\ groups < MaxGroups
            /\ src' = src \o Apostrophes(k)
            /\ bold' = (IF k = 2 THEN bold ELSE ~bold)
            /\ italic' = (IF k = 3 THEN italic ELSE ~italic)
            /\ groups' = groups + 1
            /\ last' = "group"
            /\ UNCHANGED <<ctx, segs>>

\* (The guard, which always holds, keeps TLC from choosing once and for all.)
Next == ctx = ctx /\ ((\E f \in Some(Texts) : Text(f)) \/ (\E k \in Some(ctx.groups) : Group(k)))

Complete == ~bold /\ ~italic /\ groups > 0 /\ segs # <<>>

Expected == ctx.tpre \o segs \o ctx.tpost

Emit == Complete => PrintT("@@" \o ToJson([n |-> ctx.n, t |-> ctx.pre \o src \o ctx.post, x |-> Expected]))

(* Design: the state is determined by the groups so far, and a complete line leaves nothing open. *)
TypeOK == bold \in BOOLEAN /\ italic \in BOOLEAN /\ groups \in 0..MaxGroups
Parity == groups = 0 => ~bold /\ ~italic
=============================================================================
