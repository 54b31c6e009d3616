------------------------------- MODULE Tables -------------------------------
(* Tables of wikitext (P03).                                                 *)
(*                                                                           *)
(* The state of a reader going through the lines of a table: for every open  *)
(* table (tables stand in cells of others) its finished rows, the cells of   *)
(* its current row, the cell that is open and its caption. Cells start with  *)
(* a line of their own or follow the one before in its line. The             *)
(* specification makes the document alongside the wikitext.                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Starts,     \* records [w, pre, post]: what opens the outermost table, what stands around it in the document
          Ends,       \* records [w, x]: the end of a table with what follows in the line
          Captions,   \* forms, see Contents
          RowAttrs,   \* attributes of rows
          Attrs,      \* records [w, x, pipe]: attributes of a cell as written, those in the document
          Contents,   \* forms of a text: records [pre, post, tpre, tpost, word, multi, data, pipe]:
                      \* multi: several lines; data: only in ordinary cells; pipe: only behind attributes
          MaxOps, MaxDepth, Random

VARIABLES src,        \* the wikitext so far
          tables,     \* the open tables, the innermost last
          done,       \* the document of finished tables
          line,       \* what the current line is: "data" or "head" if another cell can follow in it
          n,          \* number of words so far
          ops,
          start
vars == <<src, tables, done, line, n, ops, start>>

Some(S) == IF Random THEN {RandomElement(S)} ELSE S

NewTable(before, after) == [rows |-> "", row |-> "", cell |-> "", tag |-> "", cap |-> "", hasCap |-> FALSE, begun |-> FALSE,
                            pre |-> before, post |-> after]
Top == tables[Len(tables)]
SetTop(t) == SubSeq(tables, 1, Len(tables) - 1) \o <<t>>

Word == "w" \o ToString(n + 1)
Written(f) == f.pre \o (IF f.word THEN Word ELSE "") \o f.post
Shown(f) == f.tpre \o (IF f.word THEN Word ELSE "") \o f.tpost

ClosedCell(t) == IF t.tag = "" THEN t ELSE [t EXCEPT !.row = t.row \o t.cell \o "</" \o t.tag \o ">", !.cell = "", !.tag = ""]
ClosedRow(t) == LET u == ClosedCell(t)
                IN IF u.row = "" THEN u ELSE [u EXCEPT !.rows = u.rows \o "<tr>" \o u.row \o "</tr>", !.row = ""]
Document(t) == t.pre \o "<div class=figure><table>" \o ClosedRow(t).rows \o "</table><div class=caption>" \o t.cap \o "</div></div>" \o t.post

Init == \E s \in Some(Starts) :
        /\ start = s.w
        /\ src = s.w
        /\ tables = <<NewTable(s.pre, s.post)>>
        /\ done = "" /\ line = "" /\ n = 0 /\ ops = 0

Running == tables # <<>> /\ ops < MaxOps
Counted == ops' = ops + 1 /\ start' = start

Caption(f) ==
    /\ Running /\ ~Top.hasCap /\ ~Top.begun /\ ~f.multi /\ f.word /\ ~f.pipe
    /\ src' = src \o "\n|+ " \o Written(f)
    /\ tables' = SetTop([Top EXCEPT !.cap = Shown(f), !.hasCap = TRUE])
    /\ line' = "" /\ n' = n + 1 /\ done' = done /\ Counted

Row(a) ==
    /\ Running
    /\ src' = src \o "\n|-" \o a
    /\ tables' = SetTop([ClosedRow(Top) EXCEPT !.begun = TRUE])
    /\ line' = "" /\ n' = n /\ done' = done /\ Counted

(* a cell: heading or not, in a line of its own or in the line of the cell before *)
Cell(head, own, a, f) ==
    /\ Running
    /\ f.data => ~head /\ (own \/ line = "data")
    /\ f.pipe => a.w # ""
    /\ ~own => line # "" /\ (head <=> line = "head")
    /\ LET tag == IF head THEN "th" ELSE "td"
           sep == IF own THEN (IF head THEN "\n!" ELSE "\n|") ELSE IF head /\ n % 2 = 0 THEN " !!" ELSE " ||"
       IN /\ src' = src \o sep \o (IF a.w = "" THEN " " ELSE " " \o a.w \o " | ") \o Written(f)
          /\ tables' = SetTop([ClosedCell(Top) EXCEPT !.begun = TRUE, !.tag = tag, !.cell = "<" \o tag \o a.x \o ">" \o Shown(f)])
    /\ line' = (IF f.multi THEN "" ELSE IF head THEN "head" ELSE "data")
    /\ n' = n + 1 /\ done' = done /\ Counted

(* a further line of the open cell *)
More ==
    /\ Running /\ Top.tag # ""
    /\ src' = src \o "\n" \o Word
    /\ tables' = SetTop([Top EXCEPT !.cell = Top.cell \o " " \o Word])
    /\ line' = "" /\ n' = n + 1 /\ done' = done /\ Counted

Nested(indent) ==
    /\ Running /\ Top.tag # "" /\ Len(tables) < MaxDepth
    /\ src' = src \o "\n" \o indent \o "{|"
    /\ tables' = Append(tables, NewTable("", ""))      \* the indentation of nested tables is not shown
    /\ line' = "" /\ n' = n /\ done' = done /\ Counted

End(e) ==
    /\ tables # <<>>
    /\ src' = src \o "\n" \o e.w
    /\ LET d == Document(Top) \o e.x
           rest == SubSeq(tables, 1, Len(tables) - 1)
       IN IF rest = <<>>
          THEN tables' = <<>> /\ done' = done \o d
          ELSE LET p == rest[Len(rest)]
               IN tables' = SubSeq(rest, 1, Len(rest) - 1) \o <<[p EXCEPT !.cell = p.cell \o d]>> /\ done' = done
    /\ line' = "" /\ n' = n /\ UNCHANGED <<ops, start>>

\* (The guard, which always holds, keeps TLC from choosing once and for all.)
Next == /\ n = n
        /\ \/ \E f \in Some(Captions) : Caption(f)
           \/ \E a \in Some(RowAttrs) : Row(a)
           \/ \E head \in BOOLEAN, own \in BOOLEAN : \E a \in Some(Attrs), f \in Some(Contents) : Cell(head, own, a, f)
           \/ More
           \/ \E i \in {"", ":"} : Nested(i)
           \/ \E e \in Ends : End(e)

(* with Random the end comes late *)
Patient == Random => (tables' # <<>> \/ ops > MaxOps - 3)

Emit == (tables = <<>> /\ n > 0) => PrintT("@@" \o ToJson([n |-> start, t |-> "before\n" \o src \o "\nend", x |-> "before" \o done \o " end"]))

(* Design: cells are open only in rows, and a table is complete when it ends. *)
Open == \A i \in 1..Len(tables) : i < Len(tables) => tables[i].tag # ""
=============================================================================
