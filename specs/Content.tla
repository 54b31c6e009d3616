------------------------------ MODULE Content ------------------------------
(* What articles consist of, what has to be fetched and converted for them, *)
(* and what their chapters show.                                            *)
(*                                                                          *)
(* An item of an article is a record [k, n, as]:                            *)
(*   k = "text"  visible text n                                             *)
(*   k = "tmpl"  a call of template n, which expands to the items Body(n)   *)
(*   k = "img"   image n shown as "thumb", "inline", "gallery" or "map"     *)
(*   k = "math"  formula n                                                  *)
(* A project is a record [arts, content, conv, proc, math]: the listed      *)
(* articles, the content of each, the file types that have a conversion     *)
(* command, whether there is a processing command, the formula converter.   *)
(*                                                                          *)
(* A step is a request or an external command: [k, n].                      *)
(* A chapter is a sequence of strings: visible texts and pictures, these    *)
(* with the history of their content.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Txt(n) == [k |-> "text", n |-> n, as |-> ""]
Tmpl(n) == [k |-> "tmpl", n |-> n, as |-> ""]
Img(n, as) == [k |-> "img", n |-> n, as |-> as]
Mth(n) == [k |-> "math", n |-> n, as |-> ""]

ImageExts == ("ia" :> "jpg" @@ "ib" :> "svg" @@ "ic" :> "webp" @@ "id" :> "pdf" @@ "ie" :> "PNG" @@ "if" :> "SVG" @@ "ig" :> "jpg" @@ "ih" :> "png")
LowerExt == ("jpg" :> "jpg" @@ "svg" :> "svg" @@ "webp" :> "webp" @@ "pdf" :> "pdf" @@ "PNG" :> "png" @@ "SVG" :> "svg" @@ "png" :> "png")
Ext(n) == LowerExt[ImageExts[n]]

(* the templates of the world and what the server expands them to           *)
Body(n) == CASE n = "tt" -> <<Txt("ttx")>>
             [] n = "ti" -> <<Txt("tix"), Img("ia", "thumb")>>
             [] n = "tm" -> <<Mth("ma"), Txt("tmx")>>
             [] n = "te" -> <<>>

RECURSIVE Flatten(_)
Flatten(items) ==
    IF items = <<>> THEN <<>>
    ELSE LET h == Head(items) IN (IF h.k = "tmpl" THEN Body(h.n) ELSE <<h>>) \o Flatten(Tail(items))

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen) ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})

S(k, n) == [k |-> k, n |-> n]
Converted(p, n) == Ext(n) \in {"svg", "pdf", "webp"} /\ Ext(n) \in p.conv
Processed(p, n) == p.proc /\ (Converted(p, n) \/ Ext(n) \notin {"svg", "pdf"})

(* steps of an image and of a formula that is not in the cache at all       *)
ImageSteps(p, n) == <<S("ipage", n), S("ifile", n)>> \o (IF Converted(p, n) THEN <<S("conv", n)>> ELSE <<>>)
                       \o (IF Processed(p, n) THEN <<S("proc", n)>> ELSE <<>>)
MathSteps(p, n) == <<S("check", n), S("svg", n)>> \o
    (CASE p.math = "none" -> <<>> [] p.math = "wikimedia" -> <<S("png", n)>> [] OTHER -> <<S("mconv", n)>>)

Names(items, kind) == {items[i].n : i \in {j \in DOMAIN items : items[j].k = kind}}
ArticleSteps(p, a) ==
    LET items == p.content[a]
        flat == Flatten(items)
    IN  {S("page", a)} \cup {S("tmpl", n) : n \in Names(items, "tmpl")}
        \cup UNION {Range(ImageSteps(p, n)) : n \in Names(flat, "img")}
        \cup UNION {Range(MathSteps(p, n)) : n \in Names(flat, "math")}
Needed(p) == UNION {ArticleSteps(p, a) : a \in Range(p.arts)}

(* contents of pictures                                                     *)
Of(f, x) == f \o "(" \o x \o ")"
RawImage(n) == Of("file", n)
Picture(p, n) ==
    LET x == IF Converted(p, n) THEN Of("conv" \o Ext(n), RawImage(n)) ELSE RawImage(n)
    IN  IF Processed(p, n) THEN Of("proc", x) ELSE x
Formula(p, n) == CASE p.math = "none" -> Of("svg", n) [] p.math = "wikimedia" -> Of("png", n) [] OTHER -> Of("mconv", Of("svg", n))

Shown(p, item) ==
    CASE item.k = "text" -> <<item.n>>
      [] item.k = "img" -> <<Picture(p, item.n)>>
      [] item.k = "math" -> <<Formula(p, item.n)>>
RECURSIVE ShownAll(_, _)
ShownAll(p, items) == IF items = <<>> THEN <<>> ELSE Shown(p, Head(items)) \o ShownAll(p, Tail(items))
Chapter(p, a) == <<"title " \o a>> \o ShownAll(p, Flatten(p.content[a]))
Chapters(p) == [i \in DOMAIN p.arts |-> Chapter(p, p.arts[i])]
=============================================================================
