-------------------------------- MODULE Wiki --------------------------------
(* The wikipedia service: description pages and files of images from        *)
(* several hosts, their conversion and processing by external commands, and *)
(* formulas, all through the download cache.                                *)
(*                                                                          *)
(* w: the world and the configuration                                       *)
(*   hosts   sequence of image article hosts                                *)
(*   has     has[i][n] \in {"none","nofile","own","redir","redirnofile"}:   *)
(*           what host i knows about image n                                *)
(*   conv    set of file types that are converted to PNG; proc: processing  *)
(*   math    the formula converter                                          *)
(* st: pages  function <<host key, image>> -> title of the cached page      *)
(*     files  function file name -> content ("" if missing)                 *)
(*     toks   set of formulas whose check is cached                         *)
(* Contents are terms written as strings, e.g. proc(conv(F(h1:a.svg))).     *)
(*                                                                          *)
(* Do(w, st, op) is the outcome of one operation: [st, reqs, cmds, ok, out].*)
(* op.fail names the requests and commands that fail during this operation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT KeyByHost   \* FALSE: description pages are cached without regard to their host

Redirect(n) == "R_" \o n
F(h, t) == "F(" \o h \o ":" \o t \o ")"
Term(f, x) == f \o "(" \o x \o ")"
Png(n) == n \o ".png"

Ext(w, n) == w.ext[n]                          \* lower case file type of image n
Converted(w, n) == Ext(w, n) \in {"svg", "pdf", "webp"} /\ Ext(w, n) \in w.conv
PageKey(h, n) == <<IF KeyByHost THEN h ELSE "any", n>>

Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Req(k, h, n) == [k |-> k, h |-> h, n |-> n]
Cmd(k, a, b) == [k |-> k, in |-> a, out |-> b]

Title(w, i, n) == IF w.has[i][n] \in {"redir", "redirnofile"} THEN Redirect(n) ELSE n
HasPage(w, i, n) == w.has[i][n] # "none"
HasFile(w, i, n, t) == \/ w.has[i][n] = "own" /\ t = n
                       \/ w.has[i][n] = "redir" /\ t = Redirect(n)

At(s, i) == s \o ToString(i)

(* one image from host i on: [st, reqs, ok, fresh] *)
RECURSIVE Fetch(_, _, _, _, _)
Fetch(w, st, n, fail, i) ==
    IF i > Len(w.hosts) THEN [st |-> st, reqs |-> <<>>, ok |-> FALSE, fresh |-> FALSE]
    ELSE
    LET h == w.hosts[i]
        key == PageKey(h, n)
        cached == key \in DOMAIN st.pages
        pageOk == cached \/ (HasPage(w, i, n) /\ At("page", i) \notin fail)
        title == IF cached THEN st.pages[key] ELSE Title(w, i, n)
        st1 == IF pageOk THEN [st EXCEPT !.pages = Put(st.pages, key, title)] ELSE st
        r1 == IF cached THEN <<>> ELSE <<Req("page", h, n)>>
        have == n \in DOMAIN st.files
        fileOk == HasFile(w, i, n, title) /\ At("file", i) \notin fail
        r2 == <<Req("file", h, title)>>
        Go(s, r) == LET x == Fetch(w, s, n, fail, i + 1) IN [x EXCEPT !.reqs = r \o @]
    IN  IF ~pageOk THEN Go(st1, r1)
        ELSE IF have THEN [st |-> st1, reqs |-> r1, ok |-> TRUE, fresh |-> FALSE]
        ELSE IF fileOk THEN [st |-> [st1 EXCEPT !.files = Put(st1.files, n, F(h, title))], reqs |-> r1 \o r2, ok |-> TRUE, fresh |-> TRUE]
        ELSE Go(st1, r1 \o r2)

(* conversion and processing of a fetched image: [files, cmds, ok]; what a  *)
(* failing command leaves must not be taken for a finished picture          *)
Process(w, files, n, fail, fresh) ==
    LET conv == Converted(w, n)
        need == conv /\ Png(n) \notin DOMAIN files
        target == IF conv THEN Png(n) ELSE n
        f1 == IF need THEN Put(files, Png(n), Term("conv", files[n])) ELSE files
        c1 == IF need THEN <<Cmd("conv" \o Ext(w, n), n, Png(n))>> ELSE <<>>
        raster == conv \/ Ext(w, n) \notin {"svg", "pdf"}
        proc == w.proc /\ raster /\ (IF conv THEN need ELSE fresh)
        c2 == c1 \o <<Cmd("proc", target, target)>>
    IN  IF need /\ "conv" \in fail THEN [files |-> files, cmds |-> c1, ok |-> FALSE]
        ELSE IF ~proc THEN [files |-> f1, cmds |-> c1, ok |-> TRUE]
        ELSE IF "proc" \in fail THEN [files |-> Drop(f1, target), cmds |-> c2, ok |-> FALSE]
        ELSE [files |-> Put(f1, target, Term("proc", f1[target])), cmds |-> c2, ok |-> TRUE]

Image(w, st, op) ==
    LET f == Fetch(w, st, op.n, op.fail, 1)
        p == Process(w, f.st.files, op.n, op.fail, f.fresh)
    IN  IF ~f.ok THEN [st |-> f.st, reqs |-> f.reqs, cmds |-> <<>>, ok |-> FALSE, out |-> <<>>]
        ELSE [st |-> [f.st EXCEPT !.files = p.files], reqs |-> f.reqs, cmds |-> p.cmds, ok |-> p.ok, out |-> <<>>]

(* formulas *)
Tok(m) == "tok_" \o m
SvgName(m) == Tok(m) \o ".svg"
PngName(m) == Tok(m) \o ".png"
Math(w, st, op) ==
    LET m == op.n
        r1 == IF m \in st.toks THEN <<>> ELSE <<Req("check", "", m)>>
        ok1 == m \in st.toks \/ {"check", "noloc"} \cap op.fail = {}
        st1 == IF ok1 THEN [st EXCEPT !.toks = @ \cup {m}] ELSE st
        haveSvg == SvgName(m) \in DOMAIN st.files
        r2 == IF haveSvg THEN r1 ELSE r1 \o <<Req("svg", "", Tok(m))>>
        ok2 == haveSvg \/ "svg" \notin op.fail
        st2 == IF ok2 THEN [st1 EXCEPT !.files = Put(@, SvgName(m), Term("S", m))] ELSE st1
        havePng == PngName(m) \in DOMAIN st.files
        r3 == IF havePng THEN r2 ELSE r2 \o <<Req("png", "", Tok(m))>>
        ok3 == havePng \/ "png" \notin op.fail
        Bad(s, r, c) == [st |-> s, reqs |-> r, cmds |-> c, ok |-> FALSE, out |-> <<>>]
        Good(s, r, c, png) == [st |-> s, reqs |-> r, cmds |-> c, ok |-> TRUE, out |-> <<SvgName(m), png>>]
        cmd == <<Cmd("math", SvgName(m), PngName(m))>>
    IN  IF ~ok1 THEN Bad(st1, r1, <<>>)
        ELSE IF ~ok2 THEN Bad(st2, r2, <<>>)
        ELSE CASE w.math = "none" -> Good(st2, r2, <<>>, SvgName(m))
             [] w.math = "wikimedia" ->
                IF ~ok3 THEN Bad(st2, r3, <<>>)
                ELSE Good([st2 EXCEPT !.files = Put(@, PngName(m), Get(@, PngName(m), Term("P", m)))], r3, <<>>, PngName(m))
             [] OTHER ->
                IF "conv" \in op.fail THEN Bad(st2, r2, cmd)
                ELSE Good([st2 EXCEPT !.files = Put(@, PngName(m), Term("math", Term("S", m)))], r2, cmd, PngName(m))

(* the environment: a cached file or page disappears *)
Lose(st, op) ==
    CASE op.op = "dropfile" -> [st EXCEPT !.files = Drop(@, op.n)]
      [] op.op = "droppage" -> [st EXCEPT !.pages = [k \in {x \in DOMAIN @ : x[2] # op.n} |-> @[k]]]
      [] op.op = "droptok" -> [st EXCEPT !.toks = @ \ {op.n}]

Do(w, st, op) ==
    CASE op.op = "image" -> Image(w, st, op)
      [] op.op = "math" -> Math(w, st, op)
      [] OTHER -> [st |-> Lose(st, op), reqs |-> <<>>, cmds |-> <<>>, ok |-> TRUE, out |-> <<>>]

Empty == [pages |-> <<>>, files |-> <<>>, toks |-> {}]
=============================================================================
