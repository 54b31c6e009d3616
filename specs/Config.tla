------------------------------- MODULE Config -------------------------------
(* Where the settings of a run come from: built-in defaults, a config file, *)
(* a project file, the command line; how relative paths are resolved; which *)
(* configurations are accepted; and what the book generator is told.        *)
(*                                                                          *)
(* Values are JSON texts.  "@" stands for the directory that contains the   *)
(* directories of this run: @/start (where the program is started), @/conf, *)
(* @/p/proj and @/abs.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

St(n, k, def, alts, bad) == [n |-> n, k |-> k, def |-> def, alts |-> alts, bad |-> bad]
Cmd(n, def, empty) == St(n, "cmd", def, {"\"vhconv a {INPUT} {OUTPUT}\"", "\"vhconv b -o={OUTPUT} {INPUT} -x\""} \cup (IF empty THEN {"\"\""} ELSE {}),
                       {"\"vhconv {INPUT}\"", "\"vhconv {OUTPUT}\"", "\"vhconv\""} \cup (IF empty THEN {} ELSE {"\"\""}))
Lst(n, def, alts) == St(n, "list", def, alts, {})
Pth(n) == St(n, "path", "\"\"", {}, {})

Settings == <<
    St("force-regenerate-html", "bool", "false", {"true"}, {}),
    St("svg-size-to-viewbox", "bool", "false", {"true"}, {}),
    St("output-type", "type", "\"epub2\"", {}, {}),
    St("output-driver", "type", "\"pandoc\"", {}, {}),
    Pth("cache-dir"),
    St("cache-max-size", "int", "100000000", {"50000000", "99999999", "9000000000"}, {"0", "-1"}),
    St("cache-max-age", "int", "40320", {"1", "40319", "100000"}, {"0", "-5"}),
    St("cache-eviction-strategy", "str", "\"lru\"", {"\"none\"", "\"largest\""}, {"\"LRU\"", "\"\"", "\"random\""}),
    Pth("style-file"),
    Pth("cover-image"),
    Cmd("command-template-svg-to-png", "\"rsvg-convert -o {OUTPUT} {INPUT}\"", TRUE),
    Cmd("command-template-math-svg-to-png", "\"rsvg-convert -o {OUTPUT} {INPUT}\"", FALSE),
    Cmd("command-template-image-processing",
        "\"magick {INPUT} -resize 600x600> -quality 75 -define PNG:compression-level=9 -define PNG:compression-filter=0 -colorspace gray {OUTPUT}\"", TRUE),
    Cmd("command-template-pdf-to-png", "\"magick -density 300 {INPUT} {OUTPUT}\"", TRUE),
    Cmd("command-template-webp-to-png", "\"magick {INPUT} {OUTPUT}\"", TRUE),
    St("pandoc-executable", "exe", "\"pandoc\"", {"\"@/abs/pandoc1\"", "\"pandoc2\""}, {}),
    Pth("pandoc-data-dir"),
    Pth("font-files"),
    Lst("ignored-templates", "[]", {"[\"a\"]", "[\"a\",\"b\"]", "[\"b\",\"a\"]"}),
    Lst("trailing-templates", "[]", {"[\"c\"]", "[\"c\",\"d\",\"c\"]"}),
    Lst("ignored-image-params", "[]", {"[\"alt\"]", "[\"center\",\"alt\"]"}),
    Lst("ignored-media-types", "[\"gif\",\"mp3\",\"mp4\",\"pdf\",\"oga\",\"ogg\",\"ogv\",\"wav\",\"webm\"]",
        {"[\"webm\",\"mp3\",\"mp4\",\"pdf\",\"oga\",\"ogg\",\"ogv\",\"wav\",\"gif\"]", "[\"jpg\"]", "[]", "[\"gif\",\"gif\",\"mp4\",\"pdf\",\"oga\",\"ogg\",\"ogv\",\"wav\",\"webm\"]"}),
    St("wikipedia-instance", "str", "\"en\"", {"\"de\"", "\"simple\""}, {}),
    St("wikipedia-host", "str", "\"wikipedia.org\"", {"\"example.org\"", "\"wiki.test\""}, {}),
    St("wikipedia-image-host", "str", "\"upload.wikimedia.org\"", {"\"img.test\"", "\"up.example.org\""}, {}),
    Lst("wikipedia-image-article-hosts", "[\"commons.wikimedia.org\",\"en.wikipedia.org\"]",
        {"[]", "[\"en.wikipedia.org\",\"commons.wikimedia.org\"]", "[\"en.wikipedia.org\"]", "[\"commons.wikimedia.org\",\"commons.wikimedia.org\"]"}),
    St("wikipedia-math-rest-api", "str", "\"https://wikimedia.org/api/rest_v1/media/math\"", {"\"https://math.test/api\"", "\"https://m.example.org\""}, {}),
    Lst("file-prefixes", "[\"file\",\"image\",\"media\"]", {"[\"media\",\"file\",\"image\"]", "[\"datei\"]", "[]"}),
    Lst("allowed-link-prefixes", "[\"arxiv\",\"doi\"]", {"[]", "[\"Arxiv\",\"doi\"]", "[\"doi\",\"arxiv\"]", "[\"doi\",\"doi\"]", "[\"xx\",\"yy\",\"zz\"]"}),
    Lst("category-prefixes", "[\"category\"]", {"[]", "[\"Category\"]", "[\"kategorie\"]", "[\"kategorie\",\"category\"]"}),
    St("math-converter", "str", "\"wikimedia\"", {"\"none\"", "\"template\""}, {"\"\"", "\"Wikimedia\"", "\"pandoc\""}),
    St("toc-depth", "int", "2", {"0", "1", "3", "6"}, {"-1", "7"}),
    St("worker-threads", "int", "5", {"1", "2", "9"}, {"0", "-2"}),
    St("user-agent-template", "str", "\"wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)\"", {"\"agent X {{VERSION}}{{VERSION}}\"", "\"plain agent\""}, {}) >>
Names == {Settings[i].n : i \in DOMAIN Settings}
Table == TLCEval([n \in Names |-> LET i == CHOOSE i \in DOMAIN Settings : Settings[i].n = n IN Settings[i]])
Of(n) == Table[n]
PathNames == {n \in Names : Of(n).k = "path"}

(* Paths: [u: written upwards or absolute or downwards, p: rest]            *)
PathForms(n) ==
    LET f == CASE n = "cache-dir" -> {"ca", "c b/ca"} [] n = "style-file" -> {"s1.css", "sub/s 2.css"} [] n = "cover-image" -> {"c1.png", "sub/c2.jpg"}
               [] n = "pandoc-data-dir" -> {"dd1", "sub/dd2"} [] n = "font-files" -> {"f1.ttf", "sub/f*.ttf"} [] OTHER -> {"o.epub", "new/o 2.epub"}
    IN  {[u |-> u, p |-> p] : u \in {"down", "dot", "up", "abs"}, p \in f}
Written(f) == CASE f.u = "down" -> f.p [] f.u = "dot" -> "./" \o f.p [] f.u = "up" -> "../up/" \o f.p [] f.u = "abs" -> "@/abs/" \o f.p
Above(base) == CASE base = "@/p/proj" -> "@/p" [] base = "@/c/conf" -> "@/c" [] base = "@/start" -> "@"
Resolved(base, f) == CASE f.u \in {"down", "dot"} -> base \o "/" \o f.p [] f.u = "up" -> Above(base) \o "/up/" \o f.p [] f.u = "abs" -> "@/abs/" \o f.p

(* A layer gives some settings a value: v (JSON text, or for paths the      *)
(* sequence of path forms).  Unset settings are not in its domain.          *)
Default(n) == IF Of(n).k = "path" THEN <<>> ELSE Of(n).def
ResolvedAll(base, fs) == [i \in DOMAIN fs |-> Resolved(base, fs[i])]

(* The config file replaces values; the project file and the command line   *)
(* replace those that they set to something else than the default.          *)
Value(layer, base, n) == IF Of(n).k = "path" THEN ResolvedAll(base, layer[n]) ELSE layer[n]
Over(below, layer, base) == TLCEval([n \in Names |-> IF n \in DOMAIN layer /\ Value(layer, base, n) # Default(n) THEN Value(layer, base, n) ELSE below[n]])
Replaced(below, layer, base) == TLCEval([n \in Names |-> IF n \in DOMAIN layer THEN Value(layer, base, n) ELSE below[n]])
Defaults == TLCEval([n \in Names |-> Default(n)])

Fits(t, d) == \/ t = "\"epub2\"" /\ d = "\"pandoc\""
              \/ t = "\"epub3\"" /\ d \in {"\"pandoc\"", "\"internal\""}
              \/ t \in {"\"stats-json\"", "\"stats-txt\""} /\ d = "\"internal\""
Valid(e) == /\ \A n \in Names : e[n] \notin Of(n).bad
            /\ Fits(e["output-type"], e["output-driver"])

(* The whole: project and cli are empty layers where they do not apply      *)
Layers(c) ==
    LET l1 == Replaced(Defaults, c.file, c.conf)
        l2 == Over(l1, c.proj, "@/p/proj")
        l3 == Over(l2, c.cli, c.start)
    IN  <<l1, l2, l3>>
Effective(c) == Layers(c)[3]
Missing(e) == \E n \in PathNames : \E i \in DOMAIN e[n] : e[n][i] \in {"@/abs/missing"}
Accepted(c) == c.defect = "none" /\ LET ls == Layers(c) IN ~Missing(ls[3]) /\ \A i \in 1..3 : Valid(ls[i])

(* The output file                                                          *)
IsStats(t) == t \in {"\"stats-json\"", "\"stats-txt\""}
DefaultOutput(t) == CASE t = "\"stats-json\"" -> "stats.json" [] t = "\"stats-txt\"" -> "stats.txt" [] OTHER -> "ebook.epub"
Out(base, o, t) == Resolved(base, o) \o (IF o.dir THEN "/" \o DefaultOutput(t) ELSE "")
Output(c) ==
    LET t == Effective(c)["output-type"]
    IN  IF c.cliOut # <<>> THEN Out(c.start, c.cliOut[1], t)
        ELSE IF c.projOut # <<>> THEN Out("@/p/proj", c.projOut[1], t)
        ELSE (IF c.mode = "project" THEN "@/p/proj" ELSE c.start) \o "/" \o DefaultOutput(t)
=============================================================================
