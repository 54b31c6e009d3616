package main

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"
)

// What all checks of the text's way into the document have in common.

func init() {
	checks["P04"] = checkP04
	checks["P01"] = checkP01
	checks["P02"] = checkP02
	checks["P05"] = checkP05
	checks["P06"] = checkP06
	checks["P07"] = checkP07
	checks["P03"] = checkP03
}

// tlaStr makes a TLA+ string of s.
func tlaStr(s string) string {
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\t", "\\t")
	return `"` + r.Replace(s) + `"`
}

// tlaRec makes a record with string values, from key, value, key, value...
func tlaRec(kv ...string) string {
	var s []string
	for i := 0; i < len(kv); i += 2 {
		v := kv[i+1]
		if strings.HasPrefix(v, "\x00") { // an expression
			v = v[1:]
		} else {
			v = tlaStr(v)
		}
		s = append(s, kv[i]+" |-> "+v)
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func tlaOf(items []string) string { return "{" + strings.Join(items, ",\n ") + "}" }

// docSpec is a wikitext made by a specification, together with what has to come out.
type docSpec struct {
	N string            `json:"n"` // the kind of case, for the report
	T string            `json:"t"` // the wikitext
	X json.RawMessage   `json:"x"` // what has to come out
	M map[string]string `json:"m"` // templates
	C json.RawMessage   `json:"c"` // configuration
	A []string          `json:"a"` // what the server must have been asked for
	K json.RawMessage   `json:"k"` // what there is to count
}

// docJudge runs the texts through the real code. judge says what is wrong with a document ("" if nothing is).
func docJudge(c *Check, lines [][]byte, stats bool, judge func(s *docSpec, got *docGot) string) {
	docJudgeAll(c, lines, nil, stats, judge)
}

// docJudgeWith does the same with settings other than the defaults.
func docJudgeWith(c *Check, lines [][]byte, cfg json.RawMessage, judge func(s *docSpec, got *docGot) string) {
	docJudgeAll(c, lines, cfg, false, judge)
}

func docJudgeAll(c *Check, lines [][]byte, cfg json.RawMessage, stats bool, judge func(s *docSpec, got *docGot) string) {
	sort.SliceStable(lines, func(a, b int) bool { return len(lines[a]) < len(lines[b]) }) // the simplest violation comes first
	specs := make([]docSpec, len(lines))
	cases := make([][]byte, len(lines))
	for i, l := range lines {
		must(json.Unmarshal(l, &specs[i]))
		if specs[i].C == nil {
			specs[i].C = cfg
		}
		b, err := json.Marshal(docCase{Text: specs[i].T, Title: "T", Templates: specs[i].M, Config: specs[i].C, Stats: stats})
		must(err)
		cases[i] = b
	}
	if len(specs) > 0 {
		for _, i := range []int{len(specs) / 2, len(specs) - 1} {
			c.Sample(map[string]any{"text": specs[i].T, "expected": json.RawMessage(specs[i].X)})
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%d texts, %s\n", len(cases), time.Since(c.start))
	}
	c.MaxDeaths = 8
	for from := 0; from < len(cases) && len(c.violations) < 20; from += 4000 {
		to := min(from+4000, len(cases))
		docJudgeSome(c, specs[from:to], cases[from:to], judge)
	}
	c.mu.Lock()
	c.Traces += len(lines)
	c.mu.Unlock()
}

func docJudgeSome(c *Check, specs []docSpec, cases [][]byte, judge func(s *docSpec, got *docGot) string) {
	for i, r := range c.Run("doc", cases, 15*time.Second) {
		s := &specs[i]
		if r.Skipped {
			continue
		}
		c.count("documents", 1)
		sig := func(kind string) string { return kind + ":" + s.N + ":" + s.T }
		if r.Died != "" {
			c.Violate(sig("died"), fmt.Sprintf("%s: processing ended with %s: %q", s.N, r.Died, s.T), json.RawMessage(cases[i]))
			continue
		}
		var got docGot
		must(json.Unmarshal(r.Out, &got))
		if got.Err != "" || got.Panic != "" {
			c.Violate(sig("failed"), fmt.Sprintf("%s: processing failed: %s%s: %q", s.N, got.Err, got.Panic, s.T), json.RawMessage(cases[i]))
			continue
		}
		if bad := judge(s, &got); bad != "" {
			c.Violate(sig("differs"), fmt.Sprintf("%s: %s: %q", s.N, bad, s.T), map[string]any{"case": json.RawMessage(cases[i]), "html": got.Html, "expected": s.X, "what": bad})
		}
	}
}

// docNesting says what is wrong with the nesting of the tags.
func docNesting(tokens []string) string {
	var open []string
	for _, t := range tokens {
		if !strings.HasPrefix(t, "<") || t == "<" {
			continue
		}
		name := strings.FieldsFunc(t, func(r rune) bool { return strings.ContainsRune("</ >", r) })
		if len(name) == 0 {
			continue
		}
		switch {
		case name[0] == "br" || name[0] == "img" || name[0] == "hr":
		case strings.HasPrefix(t, "</"):
			if len(open) == 0 || open[len(open)-1] != name[0] {
				return fmt.Sprintf("</%s> closes what is not open (open: %s)", name[0], strings.Join(open, " "))
			}
			open = open[:len(open)-1]
		default:
			open = append(open, name[0])
		}
	}
	if len(open) > 0 {
		return "left open: " + strings.Join(open, " ")
	}
	return ""
}

// docFlags lists the visible characters with their state: 0 plain, 1 italic, 2 bold, 3 both.
func docFlags(tokens []string) (string, string) {
	var text, flags strings.Builder
	b, i := 0, 0
	for _, t := range tokens {
		switch t {
		case "<b>":
			b++
		case "</b>":
			b--
		case "<i>":
			i++
		case "</i>":
			i--
		default:
			if strings.HasPrefix(t, "<") {
				continue
			}
			for _, r := range t {
				if unicode.IsSpace(r) {
					continue
				}
				text.WriteRune(r)
				k := 0
				if i > 0 {
					k++
				}
				if b > 0 {
					k += 2
				}
				flags.WriteByte(byte('0' + k))
			}
		}
	}
	return text.String(), flags.String()
}

func checkP04(c *Check) {
	c.Assumptions = []string{"groups of apostrophes are separated by text and do not touch further apostrophes", "bold and italic are closed within the line"}
	contexts := []string{}
	full := func(n, pre, post, tpre, tpost, groups, b, i string) {
		contexts = append(contexts, tlaRec("n", n, "pre", pre, "post", post, "tpre", "\x00"+tpre, "tpost", "\x00"+tpost, "groups", "\x00"+groups, "b", "\x00"+b, "i", "\x00"+i))
	}
	seg := func(s, b, i string) string {
		return "<<[s |-> " + tlaStr(s) + ", b |-> " + b + ", i |-> " + i + "]>>"
	}
	ctx := func(n, pre, post, tpre, tpost string) {
		full(n, pre, post, seg(tpre, "FALSE", "FALSE"), seg(tpost, "FALSE", "FALSE"), "{2,3,5}", "FALSE", "FALSE")
	}
	ctx("paragraph", "", "\n\nend", "", "end")
	ctx("second line", "before\n", "\nend", "before", "end")
	ctx("after text", "before ", " after\n\nend", "before", "afterend")
	ctx("list item", "* before\n* ", "\n* end", "before", "end")
	ctx("nested list item", "# before\n#* ", "\n# end", "before", "end")
	ctx("description", "; ", "\n: end", "", "end")
	ctx("heading", "== ", " ==\nend", "", "end")
	ctx("cell", "{|\n|-\n| before\n| ", "\n|-\n| end\n|}", "before", "end")
	ctx("cells in a line", "{|\n|-\n| before || ", " || end\n|}", "before", "end")
	ctx("heading cell", "{|\n|-\n! before !! ", "\n|}\nend", "before", "end")
	ctx("table caption", "{|\n|+ ", "\n|-\n| end\n|}", "end", "")
	ctx("link text", "before [[Page|", "]] end", "before", "end")
	ctx("external link", "before [http://a.b ", "] end", "before", "end")
	ctx("reference", "before<ref>", "</ref> end\n\n<references />", "before[1]end[1]", "")
	ctx("image caption", "before [[File:a.jpg|thumb|", "]] end", "before", "end")
	ctx("gallery caption", "before\n<gallery>\nFile:a.jpg|", "\n</gallery>\nend", "before", "end")
	single := len(contexts)
	full("link within bold", "before '''x [[Page|", "]] y''' end", seg("before", "FALSE", "FALSE")+" \\o "+seg("x", "TRUE", "FALSE"), seg("y", "TRUE", "FALSE")+" \\o "+seg("end", "FALSE", "FALSE"), "{2}", "TRUE", "FALSE")
	full("link within italic", "before ''[[Page|", "]]'' end", seg("before", "FALSE", "FALSE"), seg("end", "FALSE", "FALSE"), "{3}", "FALSE", "TRUE")
	full("external link within bold", "before '''[http://a.b ", "]''' end", seg("before", "FALSE", "FALSE"), seg("end", "FALSE", "FALSE"), "{2}", "TRUE", "FALSE")
	full("reference within bold", "before '''x<ref>", "</ref>'''\n\n<references />", seg("before", "FALSE", "FALSE")+" \\o "+seg("x[1]", "TRUE", "FALSE")+" \\o "+seg("[1]", "FALSE", "FALSE"), "<<>>", "{2,3,5}", "FALSE", "FALSE")
	text := func(first bool, pre, post, tpre, tpost string) string {
		f := "\x00FALSE"
		if first {
			f = "\x00TRUE"
		}
		return tlaRec("first", f, "pre", pre, "post", post, "tpre", tpre, "tpost", tpost)
	}
	plain := text(true, "", "", "", "")
	forms := []string{plain,
		text(true, "", " x", "", "x"),
		text(false, " ", " ", "", ""),
		text(true, "l'", "", "l'", ""),
		text(true, "", "'s x", "", "'sx"),
		text(true, "\"", "\"", "\"", "\""),
		text(true, "(", ")", "(", ")"),
		text(true, "", "$1 % &", "", "$1%&"),
		text(true, "", ", ", "", ","),
	}
	links := append(append([]string{}, forms...),
		text(true, "[[", "]]", "", ""),
		text(true, "[[Page|", "]]", "", ""),
		text(true, "[http://x.y ", "]", "", ""),
		text(true, "<nowiki>", "</nowiki>", "", ""),
		text(true, "<small>", "</small>", "", ""),
	)
	beyond := text(true, "äß–", "中🚀 é", "äß–", "中🚀é") // characters of several bytes
	gen := func(ctxs, texts []string, max int) TLCOpts {
		return TLCOpts{Spec: "Quotes", Cfg: "INIT Init\nNEXT Next\nINVARIANTS TypeOK Parity Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Contexts", tlaOf(ctxs)}, {"Texts", tlaOf(texts)}, {"MaxGroups", fmt.Sprint(max)}, {"Random", "FALSE"}}}
	}
	judge := func(s *docSpec, got *docGot) string {
		var want []struct {
			S    string
			B, I bool
		}
		must(json.Unmarshal(s.X, &want))
		var text, flags strings.Builder
		for _, w := range want {
			k := byte('0')
			if w.I {
				k++
			}
			if w.B {
				k += 2
			}
			for _, r := range w.S {
				if !unicode.IsSpace(r) {
					text.WriteRune(r)
					flags.WriteByte(k)
				}
			}
		}
		tokens := docTokens(got.Html)
		if bad := docNesting(tokens); bad != "" {
			return "not well nested: " + bad
		}
		gt, gf := docFlags(tokens)
		if gt != text.String() {
			return fmt.Sprintf("the text is %q instead of %q", gt, text.String())
		}
		if gf != flags.String() {
			return fmt.Sprintf("of %q is %s instead of %s (1 italic, 2 bold, 3 both)", gt, gf, flags.String())
		}
		return ""
	}
	inLinks := []string{}
	noLinks := []string{}
	for i, x := range contexts {
		if i == 11 || i == 12 || i >= single && i < single+3 {
			noLinks = append(noLinks, x) // no links within links
		} else {
			inLinks = append(inLinks, x)
		}
	}
	docJudge(c, c.Generate(gen(contexts, []string{plain}, c.pick(4, 6))), false, judge)
	docJudge(c, c.Generate(gen(contexts[:1], []string{plain}, c.pick(6, 9))), false, judge)
	docJudge(c, c.Generate(gen(contexts[:2], forms, 2)), false, judge)
	docJudge(c, c.Generate(gen(contexts, forms[:c.pick(4, 9)], 2)), false, judge)
	docJudge(c, c.Generate(randomly(gen(inLinks, append(links, beyond), 12), c.pick(1500, 20000), 26, c.Seed)), false, judge)
	docJudge(c, c.Generate(randomly(gen(noLinks, append(append([]string{}, forms...), beyond), 12), c.pick(500, 5000), 26, c.Seed)), false, judge)
}

// randomly makes random behaviours of a specification with the constant Random.
func randomly(o TLCOpts, num, depth int, seed int64) TLCOpts {
	o.Defs = append([][2]string(nil), o.Defs...)
	for i := range o.Defs {
		if o.Defs[i][0] == "Random" {
			o.Defs[i][1] = "TRUE"
		}
	}
	return simulated(o, num, depth, seed)
}

// docCompare compares the document with the expected one, both given as HTML.
func docCompare(s *docSpec, got *docGot) string {
	var x string
	must(json.Unmarshal(s.X, &x))
	return docDiff(docTokens(x), docTokens(got.Html))
}

func docDiff(want, have []string) string {
	want, have = docUniform(want), docUniform(have)
	for i := 0; i < len(want) || i < len(have); i++ {
		if i >= len(want) || i >= len(have) || want[i] != have[i] {
			from := max(0, i-4)
			return fmt.Sprintf("instead of ...%s it says ...%s", strings.Join(want[min(from, len(want)):min(i+6, len(want))], "¦"), strings.Join(have[min(from, len(have)):min(i+6, len(have))], "¦"))
		}
	}
	return ""
}

// docUniform leaves out differences that mean nothing: empty captions and rows, and whether successive terms and
// descriptions stand in one list or in successive ones.
func docUniform(in []string) []string {
	for {
		var out []string
		changed := false
		for i := 0; i < len(in); i++ {
			n := len(out)
			switch {
			case in[i] == "</div>" && n > 0 && out[n-1] == "<div class=caption>",
				in[i] == "</tr>" && n > 0 && out[n-1] == "<tr>":
				out = out[:n-1]
				changed = true
			default:
				out = append(out, in[i])
			}
		}
		in = out
		if !changed {
			break
		}
	}
	var out, open []string
	justClosed := ""
	for i, t := range in {
		switch {
		case t == "</div>" || strings.HasPrefix(t, "</"):
			tag := ""
			if len(open) > 0 {
				tag, open = open[len(open)-1], open[:len(open)-1]
			}
			if tag == "<div class=description-list>" && i+1 < len(in) && in[i+1] == tag {
				justClosed = tag
				continue
			}
		case strings.HasPrefix(t, "<") && !strings.HasPrefix(t, "<br") && !strings.HasPrefix(t, "<img") && !strings.HasPrefix(t, "<hr"):
			open = append(open, t)
			if justClosed != "" {
				justClosed = ""
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

func checkP02(c *Check) {
	c.Assumptions = []string{"items have a text (empty ones are removed by cleaning)", "markers are followed by at most one space"}
	ctx := func(n, pre, post, tpre, tpost string) string {
		return tlaRec("n", n, "pre", pre, "post", post, "tpre", tpre, "tpost", tpost)
	}
	top := ctx("article", "", "end", "", "end")
	contexts := []string{top,
		ctx("after text", "before\n", "", "before ", ""),
		ctx("after heading", "== before ==\n", "== end ==\nx", "<h2>before</h2>", "<h2>end</h2>x"),
		ctx("cell", "{|\n|-\n| before\n|\n", "| end\n|}", "<div class=figure><table><tr><td>before</td><td>", "</td><td>end</td></tr></table></div>"),
	}
	form := func(pre, post, tpre, tpost string) string {
		colon := "\x00FALSE"
		if pre == "12:" {
			colon = "\x00TRUE"
		}
		return tlaRec("pre", pre, "post", post, "tpre", tpre, "tpost", tpost, "colon", colon)
	}
	plain := form("", "", "", "")
	forms := []string{plain,
		form("[[doi:b|", "]]", "", ""),
		form("", " x # y * z", "", " x # y * z"),
		form("'''", "''' x", "<b>", "</b> x"),
		form("[[Page|", "]]", "", ""),
		form("x <math>*", "</math>", "x <img src=math:*", ">"),
		form("12:", "", "12:", ""),
		form("\"", "\"; x", "\"", "\"; x"),
		form("[http://a.b ", " x]", "<a href=http://a.b>", " x</a>"),
	}
	markers := []string{"*", "#", ":", ";"}
	var d1, d2, d3 []string
	for _, a := range markers {
		d1 = append(d1, tlaSeq([]string{a}))
		for _, b := range markers {
			d2 = append(d2, tlaSeq([]string{a, b}))
			for _, x := range markers {
				d3 = append(d3, tlaSeq([]string{a, b, x}))
			}
		}
	}
	all := func(xs ...[]string) []string {
		var r []string
		for _, x := range xs {
			r = append(r, x...)
		}
		return r
	}
	gen := func(prefixes, fs, ctxs []string, max int) TLCOpts {
		return TLCOpts{Spec: "Lists", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Depth Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Contexts", tlaOf(ctxs)}, {"Forms", tlaOf(fs)}, {"Prefixes", tlaOf(prefixes)}, {"Descriptions", `{"", ": x 12:30"}`}, {"MaxLines", fmt.Sprint(max)}, {"Random", "FALSE"}}}
	}
	docJudge(c, c.Generate(gen(all(d1, d2), []string{plain}, []string{top}, c.pick(3, 3))), false, docCompare)
	docJudge(c, c.Generate(gen(all(d1, d2, d3), []string{plain}, []string{top}, 2)), false, docCompare)
	docJudge(c, c.Generate(gen(d1, forms, contexts, 2)), false, docCompare)
	docJudge(c, c.Generate(randomly(gen(all(d1, d2, d3), []string{plain}, contexts, 12), c.pick(500, 10000), 13, c.Seed)), false, docCompare)
	docJudge(c, c.Generate(randomly(gen(all(d1, d2), append(forms, form("äß–", "中🚀 é", "äß–", "中🚀 é")), contexts, 12), c.pick(300, 10000), 13, c.Seed)), false, docCompare)
	// deeper ones, of two markers each so that neighbouring lines often share a part of their prefixes
	for i, pair := range []string{"*#", "*:", ";:"} {
		level, deep := [][]string{{}}, []string{}
		for d := 0; d < 6; d++ {
			var next [][]string
			for _, p := range level {
				for _, m := range pair {
					q := append(append([]string{}, p...), string(m))
					next, deep = append(next, q), append(deep, tlaSeq(q))
				}
			}
			level = next
		}
		docJudge(c, c.Generate(randomly(gen(deep, []string{plain}, contexts, 14), c.pick(200, 4000), 15, c.Seed+int64(i)+1)), false, docCompare)
	}
}

func checkP03(c *Check) {
	c.Assumptions = []string{"a table has one caption, before its rows", "the text of a cell without attributes has no single | outside of links, formulas and the like"}
	start := func(w, pre, post string) string { return tlaRec("w", w, "pre", pre, "post", post) }
	end := func(w, x string) string { return tlaRec("w", w, "x", x) }
	attr := func(w, x string) string { return tlaRec("w", w, "x", x) }
	form := func(pre, post, tpre, tpost, flags string) string {
		is := func(f string) string {
			if strings.Contains(flags, f) {
				return "\x00TRUE"
			}
			return "\x00FALSE"
		}
		word := "\x00TRUE"
		if strings.Contains(flags, "empty") {
			word = "\x00FALSE"
		}
		return tlaRec("pre", pre, "post", post, "tpre", tpre, "tpost", tpost, "word", word, "multi", is("multi"), "data", is("data"), "pipe", is("pipe"))
	}
	plain := form("", "", "", "", "")
	contents := []string{plain,
		form("", "", "", "", "empty"),
		form("[[Page|", "]]", "", "", ""),
		form("<math>a|", "||b!!</math>", "<img src=math:a|", "||b!!>", ""),
		form("'''", "'''", "<b>", "</b>", ""),
		form("\n* ", "\n** x", "<ul><li>", "<ul><li>x</li></ul></li></ul>", "multi"),
		form("\n# ", "\n", "<ol><li>", "</li></ol>", "multi"),
		form("", "\n\nx", "", "<br><br>x", "multi"),
		form("\n", "\nx", "", " x", "multi"),
		form("", "\nx || y !! z", "", " x || y !! z", "multi"),
		form("", "\nx | y", "", " x | y", "multi"),
		form("", "!! x! y", "", "!! x! y", "data"),
		form("", " | x", "", " | x", "pipe"),
		form("<nowiki>|", "|-</nowiki>", "|", "|-", ""),
		form("-", "+", "-", "+", ""),
		form("", " {x} |} y", "", " {x} |} y", "pipe"),
		form("[http://a.b/c?d ", "]", "<a href=http://a.b/c?d>", "</a>", ""),
		form("x = ", " =", "x = ", " =", ""),
	}
	attrs := []string{attr("", ""),
		attr(`colspan="2"`, ` colspan="2"`),
		attr(`rowspan=3`, ` rowspan="3"`),
		attr(`colspan="2" rowspan="4"`, ` colspan="2" rowspan="4"`),
		attr(`style="color:red" colspan='12' class="a b"`, ` colspan="12"`),
		attr(`ROWSPAN = "3"`, ` rowspan="3"`),
		attr(`style="text-align:right; color:red" rowspan="2"`, ` style="text-align:right" rowspan="2"`),
		attr(`style="color:red;text-align:left"`, ` style="text-align:left"`),
		attr(`rowspan="1000" colspan=120`, ` rowspan="1000" colspan="120"`),
		attr(`scope="row" bgcolor=red nowrap`, ""),
	}
	captions := []string{plain, form("", "", "", "", ""), form("''", "'' x", "<i>", "</i> x", ""), form("[[A|", "]] !! x", "", " !! x", ""),
		form("style=\"color:red\" | ", "", "", "", "")}
	rows := `{"", " style=\"color:red\" class=x", "---"}`
	starts := []string{start("{|", "", "")}
	allStarts := append([]string{start(`{| class="wikitable" style="text-align:right"`, "", ""),
		start(":{| border=1", "<div class=description-list><div class=dd>", "</div></div>"), start(" {|", "", ""),
	}, starts...)
	ends := []string{end("|}", "")}
	allEnds := append([]string{end("|} behind", "behind")}, ends...)
	gen := func(ss, es, cs, as, fs []string, rows string, ops, depth int) TLCOpts {
		return TLCOpts{Spec: "Tables", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Open Emit\nACTION_CONSTRAINT Patient\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Starts", tlaOf(ss)}, {"Ends", tlaOf(es)}, {"Captions", tlaOf(cs)}, {"RowAttrs", rows}, {"Attrs", tlaOf(as)}, {"Contents", tlaOf(fs)},
				{"MaxOps", fmt.Sprint(ops)}, {"MaxDepth", fmt.Sprint(depth)}, {"Random", "FALSE"}}}
	}
	judge := func(s *docSpec, got *docGot) string { return docCompare(s, got) }
	docJudge(c, c.Generate(gen(starts, ends, []string{plain}, attrs[:1], []string{plain}, `{""}`, c.pick(5, 6), 2)), false, judge)
	docJudge(c, c.Generate(gen(starts, ends, captions, attrs, contents, rows, c.pick(1, 2), 1)), false, judge)
	docJudge(c, c.Generate(gen(starts, ends, []string{plain}, attrs[:2], contents, `{""}`, 2, 1)), false, judge)
	docJudge(c, c.Generate(gen(allStarts, allEnds, []string{plain}, attrs[:1], []string{plain}, `{""}`, c.pick(3, 4), 2)), false, judge)
	docJudge(c, c.Generate(randomly(gen(allStarts, allEnds, captions, attrs, append(contents, form("äß–", "中🚀 é", "äß–", "中🚀 é", "")), rows, 16, 3), c.pick(800, 15000), 22, c.Seed)), false, judge)
}

// withDef sets the definition of a constant.
func withDef(o TLCOpts, name, value string) TLCOpts {
	o.Defs = append([][2]string{}, o.Defs...)
	for i := range o.Defs {
		if o.Defs[i][0] == name {
			o.Defs[i][1] = value
		}
	}
	return o
}

func checkP01(c *Check) {
	c.Assumptions = []string{"a name is defined once in its group", "the text of a name is given before or in the first list of its group that has to show it",
		"values of attributes with spaces are quoted, and values contain no > or quotes"}
	spelling := func(tag, eq, q, last, order, close, name, group string) string {
		return tlaRec("tag", tag, "eq", eq, "q", q, "last", last, "order", order, "close", close, "name", name, "group", group)
	}
	normal := spelling("ref", "=", `"`, " ", "name first", "", "name", "group")
	spellings := []string{normal,
		spelling("ref", "=", ``, " ", "name first", "", "name", "group"),
		spelling("ref", "=", ``, "", "group first", "", "name", "group"),
		spelling("ref", "=", `'`, "", "name first", "", "name", "group"),
		spelling("REF", "=", `"`, "", "group first", "", "NAME", "Group"),
		spelling("ref", " = ", `"`, " ", "name first", " ", "name", "group"),
		spelling("ref", "= ", `'`, " ", "group first", "", "Name", "group"),
	}
	four := func(pre, post, tpre, tpost string) string {
		return tlaRec("pre", pre, "post", post, "tpre", tpre, "tpost", tpost)
	}
	texts := []string{four("", "", "", ""),
		four("''", "'' x", "<i>", "</i> x"),
		four("[[P|", "]] in [http://a.b c]", "", " in <a href=http://a.b>c</a>"),
		four("\n", " =/>\nx\n", "", " =/> x"),
		four("<math>a|", "</math>", "<img src=math:a|", ">"),
		four("x | ", " 'y", "x | ", " 'y"),
	}
	inline := four("", " ", "", " ")
	carriers := []string{inline, inline, inline,
		four("\n* ", "\n", "<ul><li>", "</li></ul>"),
		four("\n# x\n#* ", " y\n", "<ol><li>x<ul><li>", " y</li></ul></li></ol>"),
		four("\n== ", " ==\nx\n", "<h2>", "</h2>x "),
		four("\n{|\n| ", " || x\n|}\n", "<div class=figure><table><tr><td>", "</td><td>x</td></tr></table></div>"),
		four("\n{|\n|+ ", "\n|-\n! x\n|}\n", "<div class=figure><table><tr><th>x</th></tr></table><div class=caption>", "</div></div>"),
		four("\n[[File:a.jpg|mini|100x50px|", "]]\n", "<div class=figure><img src=A.jpg style=\"width:100px;height:50px\"><div class=caption>", "</div></div>"),
		four("x '''", "''' ", "x <b>", "</b> "),
		four("x ''", "'' ", "x <i>", "</i> "),
		four("[[Page|x]] ", ", ", "x ", ", "),
		four("(", ") ", "(", ") "),
		four("\n; x : ", "\n", "<div class=description-list><div class=dt>x</div><div class=dd>", "</div></div>"),
	}
	gen := func(groups, names, ss, ts, cs []string, ops int) TLCOpts {
		return TLCOpts{Spec: "Refs", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Numbers Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"GroupNames", tlaSet(groups)}, {"Names", tlaSet(names)}, {"Spellings", tlaOf(ss)}, {"TextForms", tlaOf(ts)}, {"Carriers", tlaOf(cs)},
				{"ListForms", `{"short", "long"}`}, {"SameText", "{FALSE}"}, {"MaxOps", fmt.Sprint(ops)}, {"Random", "FALSE"}}}
	}
	same := func(o TLCOpts) TLCOpts { return withDef(o, "SameText", "BOOLEAN") }
	docJudge(c, c.Generate(gen([]string{""}, []string{"a", "b"}, spellings[:1], texts[:1], carriers[:1], c.pick(5, 6))), false, docCompare)
	docJudge(c, c.Generate(gen([]string{"", "g"}, []string{"a"}, spellings[:1], texts[:1], carriers[:1], c.pick(4, 5))), false, docCompare)
	docJudge(c, c.Generate(withDef(gen([]string{"", "g"}, []string{"a", "b"}, spellings[:1], texts[:1], carriers[:1], 4), "SameText", "{TRUE}")), false, docCompare)
	docJudge(c, c.Generate(gen([]string{"", "Note 1"}, []string{"a b", "x/y"}, spellings, texts[:1], carriers[:1], 2)), false, docCompare)
	docJudge(c, c.Generate(gen([]string{"", "g"}, []string{"a"}, spellings[:1], texts, carriers, 2)), false, docCompare)
	names := []string{"a", "b", "a b", "x/y", "Q&A", "12", "group", "name", "A", "ä中"}
	texts = append(texts, four("äß–", "中🚀 é", "äß–", "中🚀 é"))
	docJudge(c, c.Generate(randomly(same(gen([]string{"", "g", "Note 1"}, names, spellings, texts, carriers, 14)), c.pick(800, 12000), 15, c.Seed)), false, docCompare)
	docJudge(c, c.Generate(randomly(gen([]string{""}, names, spellings, texts, carriers, 14), c.pick(800, 12000), 15, c.Seed+1)), false, docCompare)
	docJudge(c, c.Generate(randomly(same(gen([]string{"", "g"}, []string{"a", "b"}, spellings, texts[:1], carriers[:1], 24)), c.pick(800, 12000), 25, c.Seed+2)), false, docCompare)
}

func checkP05(c *Check) {
	c.Assumptions = []string{"templates within nowiki are left out", "a trailing template contains no other trailing template",
		"names beginning with that of an ignored template are ignored, too (the repository's tests say so)"}
	text := func(w, h string) string { return tlaRec("k", "text", "w", w, "h", h) }
	same := func(s string) string { return text(s, s) }
	arg := func(i int) string { return fmt.Sprintf(`[k |-> "arg", i |-> %d]`, i) }
	cond := func(i int, yes, no string) string {
		return fmt.Sprintf(`[k |-> "if", i |-> %d, yes |-> %s, no |-> %s]`, i, tlaStr(yes), tlaStr(no))
	}
	body := func(parts ...string) string { return "<<" + strings.Join(parts, ", ") + ">>" }
	type tmpl struct{ name, body string }
	basic := []tmpl{
		{"X", body(same("("), arg(1), same(")"))},
		{"D", body(arg(1), arg(1))},
		{"N", body()},
		{"tail", body(same("tail "), arg(1))},
	}
	more := append(append([]tmpl{}, basic...),
		tmpl{"C", body(same("constant $1 %s"))},
		tmpl{"A b", body(arg(2), same(", "), arg(1))},
		tmpl{"Lang:x/y", body(same("\""), arg(1), same("\""))},
		tmpl{"other tail", body(same("other tail "), arg(2))},
		tmpl{"tailor", body(same("tailor "), arg(1))},
	)
	bold := tmpl{"bold", body(text("'''", "<b>"), same("b "), arg(1), text("'''", "</b>"))}
	link := tmpl{"link", body(text("[[Page|", ""), same("l "), arg(1), text("]]", ""))}
	looking := append(append([]tmpl{}, basic...), tmpl{"Q", body(cond(1, "yes", "no"))})
	blocks := []tmpl{
		{"list", body(text("\n* i\n* i2\n", "<ul><li>i</li><li>i2</li></ul>"))},
		{"table", body(text("\n{|\n| c || d\n|}\n", "<div class=figure><table><tr><td>c</td><td>d</td></tr></table></div>"))},
		{"X", basic[0].body}, {"tail", basic[3].body},
	}
	bodies := func(ts []tmpl) string {
		var s []string
		for _, t := range ts {
			s = append(s, tlaStr(t.name)+" :> "+t.body)
		}
		return strings.Join(s, " @@ ")
	}
	four := func(pre, post, tpre, tpost string) string {
		return tlaRec("pre", pre, "post", post, "tpre", tpre, "tpost", tpost, "any", "\x00"+strings.ToUpper(fmt.Sprint(!strings.Contains(pre, "[[P") && !strings.Contains(pre, "[h") && !strings.Contains(pre, "''"))))
	}
	inline := four("", " ", "", " ")
	carriers := []string{inline, inline, four("", "", "", ""), four("(", ")", "(", ")"), four("''i ", "'' ", "<i>i ", "</i> "),
		four("\n* i ", "\n", "<ul><li>i ", "</li></ul>"), four("\n== h ", " ==\nx ", "<h2>h ", "</h2>x "), four("[[P|", "]] ", "", " "),
		four("\n{|\n| ", " || x\n|}\n", "<div class=figure><table><tr><td>", "</td><td>x</td></tr></table></div>"),
		four("[[File:a.jpg|thumb|x ", "]]\n", "<div class=figure><img src=A.jpg><div class=caption>x ", "</div></div>"),
		four("[http://a.b x ", "] ", "<a href=http://a.b>x ", "</a> ")}
	form := func(pre, post, tpre, tpost string) string {
		return tlaRec("pre", strings.TrimPrefix(pre, "\n"), "post", post, "tpre", tpre, "tpost", tpost, "nl", "\x00"+strings.ToUpper(fmt.Sprint(strings.HasPrefix(pre, "\n"))))
	}
	args := []string{form("", "", "", ""), form("", "", "", ""), form("''", "'' y", "<i>", "</i> y"), form("[[P|", "]]", "", ""), form("$1 ", " &", "$1 ", " &")}
	gen := func(ts []tmpl, ignored, trailing, cs, as, seps []string, ops, depth int) TLCOpts {
		return TLCOpts{Spec: "Templates", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Transparent Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Bodies", bodies(ts)}, {"Ignored", tlaSet(ignored)}, {"Trailing", tlaSet(trailing)}, {"Carriers", tlaOf(cs)}, {"ArgForms", tlaOf(as)},
				{"Seps", tlaSet(seps)}, {"Others", `{}`}, {"MaxOps", fmt.Sprint(ops)}, {"MaxDepth", fmt.Sprint(depth)}, {"Random", "FALSE"}}}
	}
	cfg := json.RawMessage(`{"ignored-templates":["ig","Not this"],"trailing-templates":["Tail","other tail"]}`)
	run := func(o TLCOpts) {
		docJudgeWith(c, c.Generate(o), cfg, func(s *docSpec, got *docGot) string {
			var x struct {
				Doc, Held string
				Requests  int
			}
			must(json.Unmarshal(s.X, &x))
			have := docTokens(got.Html)
			bad := docDiff(docTokens(x.Doc), have)
			if bad != "" && x.Doc != x.Held && docDiff(docTokens(x.Held), have) == "" {
				c.Violate("placeholder-in-argument", "the server gets a placeholder instead of the expansion of a call within an argument: "+bad+": "+s.T, s)
				bad = ""
			}
			if bad != "" {
				return bad
			}
			seen := map[string]bool{}
			for _, a := range got.Asked {
				if seen[a] {
					return "the server was asked twice to expand " + a
				}
				seen[a] = true
			}
			if len(got.Asked) != x.Requests {
				return fmt.Sprintf("%d requests for %d different calls: %s", len(got.Asked), x.Requests, toJSON(got.Asked))
			}
			return ""
		})
	}
	run(gen(basic, []string{"ig"}, []string{"tail"}, []string{inline}, args[:1], []string{"|"}, c.pick(4, 5), 2))
	run(gen(looking[2:], nil, []string{"tail"}, []string{inline}, args[:1], []string{"|"}, c.pick(4, 5), 2))
	run(gen(basic[:2], nil, nil, carriers, args, []string{"|"}, 3, 1))
	run(gen([]tmpl{link}, nil, nil, []string{carriers[0], carriers[2], carriers[3], carriers[4], carriers[5], carriers[6], carriers[8], carriers[9]}, args[:1], []string{"|"}, 3, 1))
	run(gen([]tmpl{bold}, nil, nil, carriers[3:4], args[:1], []string{"|"}, c.pick(3, 4), 1))
	others := tlaSet([]string{"a b", "a  b", "A b", "ab", " ab", "ab ", "a_b"})
	run(withDef(gen(basic[:1], nil, nil, []string{inline}, args[:1], []string{"|"}, c.pick(6, 7), 1), "Others", others))
	lines := []string{args[0], form("\n", "", "", "")}
	run(gen([]tmpl{basic[0], basic[2]}, nil, nil, carriers[:1], lines, []string{"|", "\\n|"}, c.pick(5, 6), 1))
	ignored := []string{"ig", "Ig", " IG ", "ignored too", "not this"}
	trailing := []string{"tail", "other tail"}
	seps := []string{"|"}
	run(randomly(withDef(gen(more, ignored, trailing, carriers, args, seps, 16, 3), "Others", `{"a b", "a  b"}`), c.pick(1200, 20000), 40, c.Seed))
	run(randomly(gen(more[:7], ignored[:1], trailing[:1], carriers[:1], args[:1], seps, 24, 4), c.pick(1000, 20000), 60, c.Seed+1))
	run(randomly(gen([]tmpl{basic[0], basic[2], more[4], more[6], more[8]}, ignored[:1], nil, carriers[:1], lines, []string{"|", "\\n|"}, 16, 3), c.pick(1000, 20000), 40, c.Seed+3))
	run(randomly(gen(blocks, ignored[:1], trailing[:1], []string{four("", "\ny ", "", " y ")}, args[:1], seps, 14, 2), c.pick(600, 10000), 40, c.Seed+2))
}

// P06: what is removed from an article.
func checkP06(c *Check) {
	c.Assumptions = []string{"a link with a prefix that is not allowed is removed, even if the name of its article has a colon (as documented)",
		"what is removed does not stand between the start of a line and a list or heading"}
	four := func(pre, post, tpre, tpost string) string {
		return tlaRec("pre", pre, "post", post, "tpre", tpre, "tpost", tpost)
	}
	piece := func(k, pre, post, tpre, tpost string) string {
		return tlaRec("k", k, "pre", pre, "post", post, "tpre", tpre, "tpost", tpost)
	}
	keep := func(pre, post string) string { return piece("keep", pre, post, "", "") }
	other := func(k string, ws ...string) (out []string) {
		for _, w := range ws {
			out = append(out, piece(k, w, "", "", ""))
		}
		return
	}
	heading := func(d int, after string) string {
		e := strings.Repeat("=", d)
		return tlaRec("d", fmt.Sprintf("\x00%d", d), "pre", e+" ", "post", " "+e+after, "tpre", fmt.Sprintf("<h%d>", d), "tpost", fmt.Sprintf("</h%d>", d))
	}
	list := func(p, open, close, iopen, iclose string) string {
		return tlaRec("p", p, "open", open, "close", close, "iopen", iopen, "iclose", iclose)
	}
	lists := []string{list("*", "<ul>", "</ul>", "<li>", "</li>"), list("#", "<ol>", "</ol>", "<li>", "</li>"),
		list(":", `<div class="description-list">`, "</div>", `<div class="dd">`, "</div>")}
	word := keep("", "")
	keeps := []string{word, word, keep("[[Page|", "]]"), piece("keep", "[[Page|a: ", "]]", "a: ", ""), keep("[[Page#s: x|", "]]"), keep("[[:Category:x|", "]]"), keep("[[:de:x|", "]]"),
		piece("keep", "a = b: ", "", "a = b: ", ""), keep("<nowiki>", "</nowiki>"),
		piece("keep", "<nowiki>[[Category:", "]]</nowiki>", "[[Category:", "]]"), piece("keep", "<nowiki>{{ig|", "}}</nowiki>", "{{ig|", "}}"),
		piece("keep", "<nowiki><!-- ", " --></nowiki>", "&lt;!-- ", " --&gt;"), piece("keep", "x ''", "''", "x <i>", "</i>"), piece("keep", "{{keep|", "}}", "k ", ""),
		piece("keep", "[http://a.b/c:d ", "]", "<a href=http://a.b/c:d>", "</a>"), piece("keep", "", " [[File:a.jpg]]", "", " <img src=A.jpg>")}
	// a line of nothing but one construct may or may not be a paragraph, so there's a word before them
	said := func(ps []string) []string {
		for i := range ps {
			if ps[i] != word {
				ps[i] = strings.NewReplacer(` pre |-> "`, ` pre |-> "y `, `tpre |-> "`, `tpre |-> "y `).Replace(ps[i])
			}
		}
		return ps
	}
	keeps = said(keeps)
	drops := other("drop", "[[Category:x]]", "[[category: x y|sort: k]]", "[[CATEGORY:x|k]]", "[[de:Foo]]", "[[zh-min-nan:Foo (bar)]]", "[[Foo:Bar:Baz|b]]", "__NOTOC__", "{{ig}}", "{{Ig\n|a=[[Page]]\n|{{X}}}}",
		"[[Category:x<!-- c -->]]", "[[de:Foo]][[fr:Foo]]", "{{ig}}{{ig|1}}[[Category:x]]")
	media := other("media", "[[File:a.mp3]]", "[[Image:a b.OGG|thumb|x [[Page]] y]]", "[[file:A (b), c: d.wav|300px]]")
	comments := other("comment", "<!-- c -->", "<!---->", "<!-- [[x]] '''b -->", "<!-- a\n\n== b ==\n* c -->", "<!-- <nowiki> -->", "<!-- {{X}} - -- > -->", "<!-- c\n--><!-- d -->", "<!-- c --><!-- d --><!---->")
	blocks := []string{four("{|\n| ", "\n|}", "<div class=figure><table><tr><td>", "</td></tr></table></div>"),
		four("[[File:a.jpg|thumb|x [[Category:y]]", " [[de:z]]<!-- c -->]]", "<div class=figure><img src=A.jpg><div class=caption>x ", "</div></div>"),
		four("{|\n| a <!-- c --> || ", "\n|-\n<!--\n| x\n-->\n|}", "<div class=figure><table><tr><td>a</td><td>", "</td></tr></table></div>")}
	heads := []string{heading(1, ""), heading(2, ""), heading(3, "")}
	fancy := append(heads[1:], heading(2, " <!-- c -->"), heading(2, "<!-- c\nd -->"), heading(4, "  "), heading(5, ""), heading(6, ""),
		tlaRec("d", "\x002", "pre", "==", "post", "[[Category:x]] == ", "tpre", "<h2>", "tpost", "</h2>"))
	gen := func(setting string, pieces, ls, bs, hs, kinds []string, lines, most int) TLCOpts {
		return TLCOpts{Spec: "Clean", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Decided Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Pieces", tlaOf(pieces)}, {"Lists", tlaOf(ls)}, {"Blocks", tlaOf(bs)}, {"Headings", tlaOf(hs)}, {"Kinds", tlaSet(kinds)},
				{"MaxLines", fmt.Sprint(lines)}, {"MaxPieces", fmt.Sprint(most)}, {"Random", "FALSE"}, {"Setting", tlaStr(setting)}}}
	}
	run := func(cfg string, o TLCOpts) {
		lines := c.Generate(o)
		docJudgeWith(c, lines, json.RawMessage(cfg), func(s *docSpec, got *docGot) string {
			var xs []string
			must(json.Unmarshal(s.X, &xs))
			have, first := docTokens(got.Html), ""
			for _, x := range xs {
				bad := docDiff(docTokens(x), have)
				if bad == "" {
					return ""
				}
				if first == "" {
					first = bad
				}
			}
			return first
		})
	}
	all := []string{"text", "list", "entry", "blank", "heading", "bold", "block"}
	std := `{"ignored-templates":["ig"]}`
	one := func(k string, ps []string) string { return ps[0] }
	few := []string{word, one("drop", drops), one("media", media), one("comment", comments)}
	every := append(append(append(append([]string{}, keeps...), drops...), media...), comments...)
	// sections: what they contain, and how they are nested
	run(std, gen("sections", []string{word, drops[0], comments[0]}, lists[:1], blocks[:1], heads, []string{"text", "heading", "blank"}, c.pick(4, 5), 1))
	run(std, gen("sections", []string{word}, lists[:1], blocks[:1], heads[:2], []string{"text", "heading", "bold", "entry"}, c.pick(5, 6), 1))
	// pieces: everything next to everything
	run(std, gen("pieces", every, lists[:1], nil, nil, []string{"text", "list"}, 1, 3))
	run(std, gen("pieces", every, lists[:1], nil, nil, []string{"text", "list"}, 2, 1))
	run(std, gen("comments", append([]string{word}, comments...), lists[:1], nil, heads[:1], []string{"text", "entry", "heading"}, 3, 1))
	run(std, gen("lines", few, lists, blocks, heads[:1], all, c.pick(3, 4), 1))
	run(std, randomly(gen("mixed", every, lists, blocks, fancy, all, c.pick(9, 12), 3), c.pick(600, 10000), 40, c.Seed))
	// other settings
	setting := `{"ignored-templates":["ig","Not this"],"category-prefixes":["kategorie","Rubrik"],"allowed-link-prefixes":["portal"],"file-prefixes":["datei"],"ignored-media-types":["jpg"]}`
	deKeep := said([]string{word, keep("[[Portal:x|", "]]"), keep("[[:Kategorie:x|", "]]"), piece("keep", "", " [[Datei:a.png]]", "", " <img src=A.png>")})
	deRest := append(append(other("drop", "[[Kategorie:x]]", "[[kategorie:x|y]]", "[[arxiv:1|x]]", "[[Category:x]]", "[[en:x]]", "{{not this}}"),
		other("media", "[[Datei:a.jpg]]", "[[datei:a.JPG|thumb|x]]")...), comments[0])
	run(setting, gen("settings", append(deKeep, deRest...), lists[:1], nil, heads[:1], []string{"text", "list", "heading"}, 2, 1))
	run(setting, gen("settings", append(deKeep, deRest...), lists[:1], nil, heads[:1], []string{"text", "list"}, 1, 3))
}

// docGrammar is what articles are made of: the kinds of constructs and the simple things.
type docGrammar struct{ kinds, leaves []string }

type docKind struct {
	name, is, may, not, pre, post, tpre, tpost, sep string
	word, ref, more                                 bool
	c                                               docCount
}

// docCount: what there is to count in a construct.
type docCount struct {
	l, e, i, m, d, u int    // links, external links, images, formulas, references, their uses
	page             string // the article it links to
	self             bool   // its word is the article
	mute             bool   // its word is not shown
	shown            string // its text, if the document does not tell
}

var reAnyTag = regexp.MustCompile(`<[^>]*>`)

func (k docKind) count() string {
	text := k.c.shown
	if text == "" && !k.c.mute {
		text = html.UnescapeString(reAnyTag.ReplaceAllString(k.tpre, "") + " " + reAnyTag.ReplaceAllString(k.tpost, ""))
	}
	n := func(i int) string { return "\x00" + fmt.Sprint(i) }
	yes := func(b bool) string { return "\x00" + strings.ToUpper(fmt.Sprint(b)) }
	words, chars := docWords(text)
	return tlaRec("w", n(words), "ch", n(chars), "l", n(k.c.l), "e", n(k.c.e), "i", n(k.c.i), "m", n(k.c.m), "d", n(k.c.d), "u", n(k.c.u),
		"page", k.c.page, "self", yes(k.c.self), "shown", yes(!k.c.mute))
}

// docWords counts the words and the characters other than white space.
func docWords(s string) (words, chars int) {
	in := false
	for _, r := range s {
		w := unicode.IsLetter(r) || unicode.IsNumber(r)
		if w && !in {
			words++
		}
		in = w
		if !unicode.IsSpace(r) {
			chars++
		}
	}
	return
}

func (k docKind) String() string {
	set := func(s string) string { return "\x00" + tlaSet(strings.Fields(s)) }
	yes := func(b bool) string { return "\x00" + strings.ToUpper(fmt.Sprint(b)) }
	return tlaRec("n", k.name, "is", set(k.is), "may", set(k.may), "not", set(k.not), "pre", k.pre, "post", k.post, "tpre", k.tpre, "tpost", k.tpost, "sep", k.sep,
		"word", yes(k.word), "ref", yes(k.ref), "more", yes(k.more), "c", "\x00"+k.count())
}

// articleGrammar: classes: block: on lines of their own; within: those which may also be in cells; text: within lines;
// plain: what may be in the titles of things; entry: of lists; row, cell: of tables
func articleKinds() (ks, ls []docKind) {
	counts := map[string]docCount{
		"link": {l: 1, page: "Some page"}, "link2": {l: 1, page: "Some page"}, "elink": {e: 1}, "note": {d: 1, u: 1}, "note2": {d: 1, u: 1},
		"figure": {i: 1}, "figure2": {i: 1}, "sized": {i: 1}, "page": {l: 1, self: true}, "pages": {l: 1, page: "Page (x)"}, "site": {e: 1},
		"formula": {m: 1, mute: true}, "picture": {i: 1, mute: true}, "picture2": {i: 1, mute: true}, "figure3": {i: 1}, "used": {u: 1, mute: true},
		"gallery": {i: 2, shown: "c z"}, "map": {i: 1}, "captioned": {l: 1, page: "Other page"},
	}
	kind := func(k docKind) {
		k.c = counts[k.name]
		ks = append(ks, k)
	}
	kind(docKind{name: "paragraph", is: "block", may: "text figure", pre: "\n\n", sep: "<br><br>", word: true})
	kind(docKind{name: "continued", is: "block", may: "text", pre: "\n\n", post: "\nfurther", sep: "<br><br>", tpost: " further", word: true})
	for d := 1; d <= 6; d++ {
		e := strings.Repeat("=", d)
		kind(docKind{name: fmt.Sprint("heading", d), is: "block", may: "text", pre: "\n\n" + e + " ", post: " " + e, tpre: fmt.Sprintf("<h%d>", d), tpost: fmt.Sprintf("</h%d>", d), word: true, more: true})
	}
	// within lines
	kind(docKind{name: "italic", is: "text", may: "text", not: "italic both", pre: "''", post: "'' ", tpre: "<i>", tpost: "</i> ", word: true})
	kind(docKind{name: "bold", is: "text", may: "text", not: "bold both", pre: "'''", post: "''' ", tpre: "<b>", tpost: "</b> ", word: true})
	kind(docKind{name: "both", is: "text", may: "text", not: "italic bold both", pre: "'''''", post: "''''' ", tpre: "<i><b>", tpost: "</b></i> ", word: true})
	kind(docKind{name: "link", is: "text", may: "text", not: "link elink note figure figure2 sized", pre: "[[Some page|", post: "]] ", tpost: " ", word: true})
	kind(docKind{name: "link2", is: "text", may: "plain", not: "link link2 elink", pre: "[[Some page#x|", post: "]]"})
	kind(docKind{name: "elink", is: "text", may: "text", not: "link link2 elink", pre: "[https://a.b/c?d=e&f#g ", post: "] ", tpre: `<a href="https://a.b/c?d=e&f#g">`, tpost: "</a> ", word: true})
	kind(docKind{name: "note", is: "text", may: "text", not: "note template", pre: "<ref>", post: "</ref> ", tpost: " ", ref: true})
	kind(docKind{name: "note2", is: "text", may: "text", not: "note note2 template", pre: "<ref name=\"\x01\">", post: "</ref>", ref: true, word: true})
	for _, t := range []string{"sub", "small", "u", "span"} {
		kind(docKind{name: t, is: "text", may: "text", not: t, pre: "<" + t + ">", post: "</" + t + "> ", tpre: "<" + t + ">", tpost: "</" + t + "> "})
	}
	kind(docKind{name: "template", is: "text", may: "plain", not: "template", pre: "{{T|", post: "}}", tpre: "t ", tpost: " t"})
	kind(docKind{name: "figure", is: "block within", may: "text", not: "figure figure2 sized link link2 elink note note2", pre: "\n[[File:p q.jpg|thumb|", post: "]]\n", tpre: "<div class=figure><img src=P_q.jpg><div class=caption>", tpost: "</div></div>", word: true})
	kind(docKind{name: "figure2", is: "figure", may: "text", not: "figure figure2 link link2 elink note note2", pre: "\n[[File:p q.jpg|thumb|", post: "]]\nso ", tpre: "<div class=figure><img src=P_q.jpg><div class=caption>", tpost: "</div></div>so ", word: true})
	kind(docKind{name: "sized", is: "figure", may: "text", not: "figure figure2 sized link link2 elink note note2 entry", pre: "[[Image:r.png|mini|left|200x100px|", post: "]] ", tpre: `<div class=figure><img src=R.png style="width:200px;height:100px"><div class=caption>`, tpost: "</div></div>", word: true})
	// lists
	type form struct{ open, close, iopen, iclose string }
	forms := map[string]form{"*": {"<ul>", "</ul>", "<li>", "</li>"}, "#": {"<ol>", "</ol>", "<li>", "</li>"}, ":": {`<div class="description-list">`, "</div>", `<div class="dd">`, "</div>"}}
	var lists func(path string)
	lists = func(path string) {
		f, is := forms[path[len(path)-1:]], "block within"
		pre := "\n"
		if len(path) > 1 {
			is, pre = "below"+path[:len(path)-1], ""
		}
		kind(docKind{name: "list" + path, is: is, may: "entry" + path, pre: pre, tpre: f.open, tpost: f.close})
		kind(docKind{name: "entry" + path, is: "entry" + path, may: "text below" + path, pre: "\n" + path + " ", tpre: f.iopen, tpost: f.iclose, word: true})
		if len(path) < 3 {
			for _, m := range []string{"*", "#", ":"} {
				if len(path) == 1 || path[1] == m[0] {
					lists(path + m)
				}
			}
		}
	}
	for _, m := range []string{"*", "#", ":"} {
		lists(m)
	}
	// tables
	kind(docKind{name: "table", is: "block within", may: "row", pre: "\n{| class=\"wikitable\"", post: "\n|}", tpre: `<div class=figure><table>`, tpost: `</table><div class="caption"></div></div>`})
	kind(docKind{name: "captioned", is: "block within", may: "row", pre: "\n{|\n|+ titled [[Other page|''so'']]", post: "\n|}", tpre: `<div class=figure><table>`, tpost: `</table><div class="caption">titled <i>so</i></div></div>`})
	kind(docKind{name: "row", is: "row", may: "cell", pre: "\n|-", tpre: "<tr>", tpost: "</tr>"})
	kind(docKind{name: "data", is: "cell", may: "text within", pre: "\n| ", tpre: "<td>", tpost: "</td>"})
	kind(docKind{name: "wide", is: "cell", may: "text within", pre: "\n| colspan=\"2\" | ", tpre: `<td colspan="2">`, tpost: "</td>", word: true})
	kind(docKind{name: "head", is: "cell", may: "text within", pre: "\n! ", tpre: "<th>", tpost: "</th>", word: true})
	// simple things
	leaf := func(name, is, not, pre, post, tpre, tpost string) {
		ls = append(ls, docKind{name: name, is: is, not: not, pre: pre, post: post, tpre: tpre, tpost: tpost, c: counts[name]})
	}
	leaf("word", "text plain", "", "", "", "", "")
	leaf("words", "text plain", "", "", " ", "", " ")
	for i, x := range []string{"$1 %s \\1 ${a} $$ ", "a & b &amp; &nbsp;&lt; ", "5 < 6 > 4 ", "\" ' ` ´ ", "k * # : ; ", "k = == ", "ä–中🚀 ", "(a) [1] ", "{ } ", "- -- ---- ", "_ __ ~~ \\\\ / ", "1. 2) "} {
		not := ""
		if strings.HasPrefix(x, "(a)") {
			not = "link link2 elink figure figure2 sized"
		}
		if strings.HasPrefix(x, "{") {
			not = "template"
		}
		leaf(fmt.Sprint("chars", i), "text plain", not, x, " ", x, " ")
	}
	leaf("page", "text", "link link2 elink", "[[", "]]", "", "")
	leaf("pages", "text", "link link2 elink", "[[Page (x)#y|", "]]s ", "", "s ")
	leaf("site", "text", "link link2 elink", "[http://a.b ", "]", "<a href=http://a.b>", "</a>")
	leaf("formula", "text plain", "", "<math>\\frac{a}{", "}</math> ", "<img src=math:\\frac{a}{", "}> ")
	leaf("literal", "text", "template", "<nowiki>''a'' [[b]] {{c}} <i> $1 ", "</nowiki> ", "''a'' [[b]] {{c}} &lt;i&gt; $1 ", " ")
	leaf("picture", "text", "link link2 elink figure figure2 sized", "[[File:i.svg|20px|", "]] ", "<img src=I.svg.png style=\"width:20px;height:auto\" alt=", "> ")
	leaf("picture2", "text", "link link2 elink figure figure2 sized", "[[File:k.png|x20px|", "]] ", "<img src=K.png style=\"width:auto;height:20px\" alt=", "> ")
	leaf("figure3", "block", "", "\n[[File:s thumb.jpg|thumb|miniature ", " of 300px]]\n", "<div class=figure><img src=S_thumb.jpg><div class=caption>miniature ", " of 300px</div></div>")
	leaf("call", "text plain", "template", "{{U|a|", "}}", "", " ")
	leaf("used", "text", "note note2 template", "<ref name=\"", "\" />", "", "")
	leaf("comment", "text plain", "", "<!-- ''a [[b {{c --> ", " ", " ", " ")
	leaf("gallery", "block", "", "\n<gallery widths=100>\nFile:a b.jpg|''c'' \x01\nthumb d.png|", "\n</gallery>", "<div class=figure><img src=A_b.jpg><div class=caption><i>c</i> \x01</div></div><div class=figure><img src=Thumb_d.png><div class=caption>", "</div></div>")
	leaf("map", "block", "", "\n<imagemap>\nFile:e.jpg|300px|thumb|", "\nrect 0 0 1 1 [[x]]\ndefault [[y]]\n</imagemap>", `<div class=figure><img src=E.jpg style="width:300px;height:auto"><div class=caption>`, "</div></div>")
	return
}

func articleGrammar() (g docGrammar) {
	ks, ls := articleKinds()
	for _, k := range ks {
		if !strings.Contains(k.pre, "\x01") {
			g.kinds = append(g.kinds, k.String())
		}
	}
	for _, l := range ls {
		if l.name != "used" {
			l.pre, l.tpre = strings.ReplaceAll(l.pre, "\x01", "z"), strings.ReplaceAll(l.tpre, "\x01", "z")
			if l.name == "picture" { // the document has no other trace of its text
				l.pre, l.post, l.tpre, l.tpost = "[[File:i", ".svg|20px]] ", "<img src=I", ".svg.png style=\"width:20px;height:auto\"> "
			}
			if l.name == "picture2" {
				l.pre, l.post, l.tpre, l.tpost = "[[File:k", ".png|x20px]] ", "<img src=K", ".png style=\"width:auto;height:20px\"> "
			}
			g.leaves = append(g.leaves, l.String())
		}
	}
	return
}

// lastingClasses: of what may come last in list entries and cells.
func lastingClasses() []string {
	lasting := []string{"within"}
	for _, a := range []string{"*", "#", ":"} {
		lasting = append(lasting, "below"+a)
		for _, b := range []string{"*", "#", ":"} {
			lasting = append(lasting, "below"+a+b)
		}
	}
	return lasting
}

// P07: all constructs in all combinations.
func checkP07(c *Check) {
	c.Assumptions = []string{"a paragraph begins with a word, and a line is not only of bold text", "headings are followed by content",
		"in list entries and cells, lists and tables come last"}
	g := articleGrammar()
	gen := func(ops, depth int) TLCOpts {
		return TLCOpts{Spec: "Doc", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Nested Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Kinds", tlaOf(g.kinds)}, {"Leaves", tlaOf(g.leaves)}, {"Lasting", tlaSet(lastingClasses())},
				{"Least", "3"}, {"Bodies", `[T |-> "t {1} t", U |-> "{2} "]`}, {"MaxOps", fmt.Sprint(ops)}, {"MaxDepth", fmt.Sprint(depth)}, {"Random", "FALSE"}}}
	}
	// behind a figure, whether in a line of its own or not, a paragraph needs no mark
	plain := func(ts []string) (out []string) {
		for _, t := range ts {
			if t == "<br>" && len(out) > 0 && out[len(out)-1] == "</div>" {
				continue
			}
			out = append(out, t)
		}
		return
	}
	run := func(o TLCOpts) {
		docJudge(c, c.Generate(o), false, func(s *docSpec, got *docGot) string {
			var x string
			must(json.Unmarshal(s.X, &x))
			return docDiff(plain(docTokens(x)), plain(docTokens(got.Html)))
		})
	}
	run(gen(3, 3))
	run(randomly(gen(6, 4), c.pick(1500, 12000), 40, c.Seed))
	run(randomly(gen(30, 6), c.pick(400, 4000), 120, c.Seed+1))
	// some long articles, too
	run(randomly(withDef(gen(4000, 4), "Least", "3999"), c.pick(3, 30), 30000, c.Seed+2))
}
