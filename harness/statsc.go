package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"wiki2book/config"
	"wiki2book/generator"
	"wiki2book/parser"
	"wiki2book/wikipedia"
)

// S01: the statistics of articles and of whole projects.

func init() {
	checks["S01"] = checkS01
}

type statsLinks []struct {
	Name string `json:"name"`
	N    int    `json:"n"`
}

type statsSpec struct {
	Articles []struct {
		docArticle
		Links statsLinks     `json:"links"`
		K     map[string]int `json:"k"`
	} `json:"articles"`
	K         map[string]int `json:"k"`
	Links     statsLinks     `json:"links"`
	Uncovered statsLinks     `json:"uncovered"`
	Ranking   []int          `json:"ranking"`
}

type docArticle struct {
	Title string `json:"title"`
	Text  string `json:"text"`
}

// what the project's statistics are
type statsGot struct {
	Each  []map[string]any `json:"each"`
	Json  map[string]any   `json:"json"`
	Txt   string           `json:"txt"`
	Again []string         `json:"again"` // what came out differently when it was made again
}

// docProject makes the statistics of several articles.
func docProject(svc wikipedia.WikipediaService, articles []docArticle) (*statsGot, error) {
	got := &statsGot{}
	var files []string
	for _, a := range articles {
		t := parser.NewTokenizer(svc)
		article, err := t.Tokenize(a.Text, a.Title)
		if err != nil {
			return nil, fmt.Errorf("tokenizing: %w", err)
		}
		file, err := generator.NewStatsGenerator(article.TokenMap).Generate(article)
		if err != nil {
			return nil, fmt.Errorf("statistics: %w", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return nil, err
		}
		var m map[string]any
		if err = json.Unmarshal(b, &m); err != nil {
			return nil, err
		}
		got.Each = append(got.Each, m)
		files = append(files, file)
	}
	out := filepath.Join(config.Current.CacheDir, "out")
	for _, typ := range []string{config.OutputTypeStatsJson, config.OutputTypeStatsTxt} {
		config.Current.OutputType = typ
		var first string
		for n := 0; n < 3; n++ {
			if err := generator.GenerateCombinedStats(files, out); err != nil {
				return nil, fmt.Errorf("combining (%s): %w", typ, err)
			}
			b, err := os.ReadFile(out)
			if err != nil {
				return nil, err
			}
			if n == 0 {
				first = string(b)
			} else if first != string(b) {
				got.Again = append(got.Again, typ+": "+string(b))
				break
			}
		}
		if typ == config.OutputTypeStatsTxt {
			got.Txt = first
		} else if err := json.Unmarshal([]byte(first), &got.Json); err != nil {
			return nil, err
		}
	}
	return got, nil
}

var statsNames = [][2]string{{"w", "number-of-words"}, {"l", "number-of-internal-links"}, {"e", "number-of-external-links"}, {"i", "number-of-images"},
	{"m", "number-of-math"}, {"d", "number-of-ref-definitions"}, {"u", "number-of-ref-usages"}}

func statsNumber(m map[string]any, name string) int {
	if f, ok := m[name].(float64); ok {
		return int(f)
	}
	return -1
}

// statsFigures compares the figures other than those of characters.
func statsFigures(want map[string]int, got map[string]any) string {
	for _, n := range statsNames {
		if g := statsNumber(got, n[1]); g != want[n[0]] {
			return fmt.Sprintf("%s is %d instead of %d", n[1], g, want[n[0]])
		}
	}
	return ""
}

func statsMap(m any) map[string]int {
	out := map[string]int{}
	x, _ := m.(map[string]any)
	for k, v := range x {
		f, _ := v.(float64)
		out[k] = int(f)
	}
	return out
}

func statsSame(what string, want map[string]int, got any) string {
	g := statsMap(got)
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range g {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		w, ok1 := want[n]
		h, ok2 := g[n]
		if w != h || ok1 != ok2 {
			return fmt.Sprintf("%s has %d for %q instead of %d", what, h, n, w)
		}
	}
	return ""
}

func (l statsLinks) counts() map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[x.Name] += x.N
	}
	return m
}

// statsRanking: names have the numbers they have, and the numbers are the highest ones.
func statsRanking(what string, limit int, s *statsSpec, names []string, numbers []int) string {
	want := s.Ranking[:min(limit, len(s.Ranking))]
	if len(names) != len(want) {
		return fmt.Sprintf("%s has %d entries instead of %d", what, len(names), len(want))
	}
	counts, seen := s.Uncovered.counts(), map[string]bool{}
	for i, n := range names {
		if seen[n] || counts[n] == 0 || counts[n] != numbers[i] {
			return fmt.Sprintf("%s has %q with %d", what, n, numbers[i])
		}
		seen[n] = true
		if numbers[i] != want[i] {
			return fmt.Sprintf("%s has %d at place %d instead of %d", what, numbers[i], i+1, want[i])
		}
	}
	return ""
}

func statsJudge(s *statsSpec, got *statsGot) string {
	if len(got.Again) > 0 {
		return "differs when made again: " + got.Again[0]
	}
	if len(got.Each) != len(s.Articles) {
		return fmt.Sprintf("statistics of %d articles instead of %d", len(got.Each), len(s.Articles))
	}
	sums := map[string]int{}
	for i, a := range s.Articles {
		bad := statsFigures(a.K, got.Each[i])
		if bad == "" {
			bad = statsSame("internal-links", a.Links.counts(), got.Each[i]["internal-links"])
		}
		if bad == "" && got.Each[i]["article-name"] != a.Title {
			bad = fmt.Sprintf("article-name is %v", got.Each[i]["article-name"])
		}
		if bad != "" {
			return fmt.Sprintf("article %q: %s", a.Title, bad)
		}
		for _, f := range []string{"number-of-characters", "estimated-reading-time-minutes"} {
			sums[f] += statsNumber(got.Each[i], f)
		}
	}
	if bad := statsFigures(s.K, got.Json); bad != "" {
		return "total: " + bad
	}
	for f, n := range sums {
		if g := statsNumber(got.Json, f); g != n {
			return fmt.Sprintf("total: %s is %d, the sum is %d", f, g, n)
		}
	}
	for _, x := range []struct {
		name  string
		links statsLinks
	}{{"internal-links", s.Links}, {"uncovered-internal-links", s.Uncovered}} {
		if bad := statsSame("total: "+x.name, x.links.counts(), got.Json[x.name]); bad != "" {
			return bad
		}
	}
	// the ranking of JSON has no order
	top := statsMap(got.Json["top-10-uncovered-internal-links"])
	var names []string
	for n := range top {
		names = append(names, n)
	}
	sort.Slice(names, func(a, b int) bool { return top[names[a]] > top[names[b]] })
	var numbers []int
	for _, n := range names {
		numbers = append(numbers, top[n])
	}
	if bad := statsRanking("total: top 10", 10, s, names, numbers); bad != "" {
		return bad
	}
	return statsText(s, sums["number-of-characters"], got.Txt)
}

// statsText: the readable form has the same to say.
func statsText(s *statsSpec, characters int, txt string) string {
	names, numbers, articles := []string{}, []int{}, map[string]int{}
	part, seen := "", map[string]bool{}
	for _, line := range strings.Split(txt, "\n") {
		switch {
		case strings.HasSuffix(line, ":") && !strings.HasPrefix(line, " "):
			part = line
			if strings.HasPrefix(line, "Top 20") {
				seen["top"] = true
				if want := fmt.Sprintf("(total: %d)", len(s.Uncovered)); !strings.Contains(line, want) {
					return fmt.Sprintf("text: %q instead of %s", line, want)
				}
			}
		case strings.HasPrefix(line, "  ") && part == "Article:":
			articles[line[2:]]++
		case strings.HasPrefix(line, "  ") && strings.HasPrefix(part, "Top 20"):
			i := strings.LastIndex(line, " (")
			if i < 0 || !strings.HasSuffix(line, ")") {
				return fmt.Sprintf("text: %q", line)
			}
			n, err := strconv.Atoi(line[i+2 : len(line)-1])
			if err != nil {
				return fmt.Sprintf("text: %q", line)
			}
			names, numbers = append(names, line[2:i]), append(numbers, n)
		case strings.HasPrefix(line, "  "):
			f := strings.SplitN(line, ":", 2)
			if len(f) != 2 {
				continue
			}
			want := -1
			switch strings.TrimSpace(f[0]) {
			case "Number of characters":
				want = characters
			case "Number of internal links":
				want = s.K["l"]
			}
			if want >= 0 {
				seen[strings.TrimSpace(f[0])] = true
				if strings.TrimSpace(f[1]) != fmt.Sprint(want) {
					return fmt.Sprintf("text: %q instead of %d", line, want)
				}
			}
		}
	}
	if !seen["top"] || !seen["Number of characters"] || !seen["Number of internal links"] {
		return fmt.Sprintf("text: incomplete: %q", txt)
	}
	want := map[string]any{}
	for _, a := range s.Articles {
		want[a.Title] = float64(1)
	}
	if bad := statsSame("text: list of articles", articles, want); bad != "" {
		return bad
	}
	return statsRanking("text: top 20", 20, s, names, numbers)
}

// statsGrammar: the constructs in which words are where the document has them. Tags and entities are left out: whether
// they are part of the text is open.
func statsGrammar() (g docGrammar) {
	// words are separate, whatever is between them
	spaced := func(k *docKind) {
		if strings.Contains(k.is, "text") && !strings.HasSuffix(k.post, " ") {
			k.post, k.tpost = k.post+" ", k.tpost+" "
		}
	}
	ks, ls := articleKinds()
	for _, k := range ks {
		switch k.name {
		case "sub", "small", "u", "span", "note2":
		default:
			spaced(&k)
			g.kinds = append(g.kinds, k.String())
		}
	}
	for _, l := range ls {
		switch l.name {
		case "chars1", "chars2", "used", "word":
			continue
		case "pages":
			l.post, l.tpost = "]] ", " "
		case "gallery":
			l.pre = strings.ReplaceAll(l.pre, "\x01", "z")
		}
		spaced(&l)
		g.leaves = append(g.leaves, l.String())
	}
	leaf := func(k docKind) { spaced(&k); g.leaves = append(g.leaves, k.String()) }
	// a link within the article, one with spaces, a further use of a reference
	leaf(docKind{name: "here", is: "text", not: "link link2 elink figure figure2 sized", pre: "[[#Some part|", post: "]] ", tpost: " ", c: docCount{l: 1}})
	leaf(docKind{name: "spaces", is: "text", not: "link link2 elink figure figure2 sized", pre: "[[ Ä/ö ü #x | ", post: " ]] ", tpost: " ", c: docCount{l: 1, page: "Ä/ö ü"}})
	leaf(docKind{name: "term", is: "block", pre: "\n; a [[Term|b]] ", post: "\n: c\n:: d", c: docCount{l: 1, page: "Term", shown: "a b c d"}})
	leaf(docKind{name: "again", is: "text", not: "note template", pre: "<ref name=\"q\" /> ", c: docCount{u: 1}})
	return
}

func checkS01(c *Check) {
	c.Assumptions = []string{"no HTML tags and entities in the text: whether they count as characters is open",
		"links to articles of the project are written like their titles"}
	g := statsGrammar()
	tail := "\n\nend<ref name=\"q\">note</ref>"
	gen := func(ops, depth int) TLCOpts {
		return TLCOpts{Spec: "Doc", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Nested Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Kinds", tlaOf(g.kinds)}, {"Leaves", tlaOf(g.leaves)}, {"Lasting", tlaSet(lastingClasses())},
				{"Least", "3"}, {"Bodies", `[T |-> "t {1} t", U |-> "{2} "]`}, {"MaxOps", fmt.Sprint(ops)}, {"MaxDepth", fmt.Sprint(depth)}, {"Random", "FALSE"}}}
	}
	run := func(o TLCOpts) {
		lines := c.Generate(o)
		for i, l := range lines {
			var s docSpec
			must(json.Unmarshal(l, &s))
			body, refs, _ := strings.Cut(s.T, "\n\n<references />")
			_ = refs
			s.T = body + tail + "\n\n<references />"
			b, err := json.Marshal(s)
			must(err)
			lines[i] = b
		}
		docJudgeStats(c, lines)
	}
	run(gen(2, 3))
	run(randomly(gen(6, 4), c.pick(1500, 15000), 40, c.Seed))
	run(randomly(gen(30, 6), c.pick(400, 5000), 120, c.Seed+1))

	// whole projects
	type form struct {
		pre, mid string
		w        int
	}
	forms := func(fs []form) string {
		var s []string
		for _, f := range fs {
			s = append(s, tlaRec("pre", f.pre, "mid", f.mid, "w", fmt.Sprintf("\x00%d", f.w)))
		}
		return tlaOf(s)
	}
	thing := func(t string, kv ...any) string {
		s := []string{"t", t}
		for i := 0; i < len(kv); i += 2 {
			s = append(s, kv[i].(string), fmt.Sprintf("\x00%d", kv[i+1].(int)))
		}
		return tlaRec(s...)
	}
	things := tlaOf([]string{thing("some words 1 ", "w", 3), thing("[https://a.b c] ", "w", 1, "e", 1), thing("\n\n[[File:a.jpg|thumb|caption]]\n\n", "w", 1, "i", 1),
		thing("<math>x</math> ", "m", 1), thing("a<ref>b c</ref> ", "w", 3, "d", 1, "u", 1)})
	project := func(titles, others []string, fs []form, things string, repeats string, articles, ops int) TLCOpts {
		return TLCOpts{Spec: "Stats", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Complete Emit\nCHECK_DEADLOCK FALSE\n",
			Defs: [][2]string{{"Titles", tlaSet(titles)}, {"Others", tlaSet(others)}, {"Links", forms(fs)}, {"Things", things}, {"Repeats", repeats},
				{"MaxArticles", fmt.Sprint(articles)}, {"MaxOps", fmt.Sprint(ops)}, {"Random", "FALSE"}}}
	}
	fs := []form{{"[[", "|x y]] ", 2}, {"\n* a [[", "#z|x]]\n", 2}, {"\n* a\n** b [[ ", " |''x'']] \n\n", 3}, {"\n{|\n|-\n| [[", "|x]]\n|}\n", 1}, {"<ref>[[", "|x]]</ref> ", 1}}
	// the last one is a reference, too
	fs = fs[:4]
	// (in states TLC has put aside only ASCII characters are safe)
	docProjects(c, c.Generate(project([]string{"A", "B c", "C/d"}, []string{"X"}, fs[:1], "{}", "1..2", 3, c.pick(5, 6))))
	var many []string
	for i := 1; i <= 45; i++ {
		many = append(many, fmt.Sprintf("X%d (%d)", i, i%7))
	}
	titles := []string{"A", "B c", "Ä (x)", "a_b", "C/d", "10", "Aa", "A (1)", "$1"}
	docProjects(c, c.Generate(randomly(project(titles, many[:5], fs, things, "1..4", 6, 25), c.pick(500, 5000), 26, c.Seed)))
	docProjects(c, c.Generate(randomly(project(titles, many[:14], fs, things, "1..3", 3, 40), c.pick(400, 5000), 41, c.Seed+1)))
	docProjects(c, c.Generate(randomly(project(titles, many, fs[:1], "{}", "1..3", 4, 120), c.pick(200, 2000), 121, c.Seed+2)))
}

// docJudgeStats compares the figures of articles.
func docJudgeStats(c *Check, lines [][]byte) {
	docJudge(c, lines, true, func(s *docSpec, got *docGot) string {
		var k struct {
			docFigures
			Pages []string `json:"pages"`
		}
		must(json.Unmarshal(s.K, &k))
		// the end of the text
		k.W, k.Ch, k.D, k.U = k.W+2, k.Ch+7, k.D+1, k.U+1
		want := map[string]int{"w": k.W, "l": k.L, "e": k.E, "i": k.I, "m": k.M, "d": k.D, "u": k.U}
		if bad := statsFigures(want, got.Stats); bad != "" {
			return bad
		}
		pages := map[string]int{}
		for _, p := range k.Pages {
			pages[p]++
		}
		if bad := statsSame("internal-links", pages, got.Stats["internal-links"]); bad != "" {
			return bad
		}
		space := 2 * strings.Count(s.T, "{{") // what the templates have
		for _, r := range s.T {
			if unicode.IsSpace(r) {
				space++
			}
		}
		if n := statsNumber(got.Stats, "number-of-characters"); n < k.Ch || n > k.Ch+space {
			return fmt.Sprintf("number-of-characters is %d instead of %d up to %d", n, k.Ch, k.Ch+space)
		}
		return ""
	})
}

type docFigures struct {
	W  int `json:"w"`
	Ch int `json:"ch"`
	L  int `json:"l"`
	E  int `json:"e"`
	I  int `json:"i"`
	M  int `json:"m"`
	D  int `json:"d"`
	U  int `json:"u"`
}

func docProjects(c *Check, lines [][]byte) {
	sort.SliceStable(lines, func(a, b int) bool { return len(lines[a]) < len(lines[b]) })
	specs := make([]statsSpec, len(lines))
	cases := make([][]byte, len(lines))
	for i, l := range lines {
		must(json.Unmarshal(l, &specs[i]))
		var as []docArticle
		for _, a := range specs[i].Articles {
			as = append(as, a.docArticle)
		}
		b, err := json.Marshal(docCase{Project: as})
		must(err)
		cases[i] = b
	}
	if len(lines) > 0 {
		c.Sample(json.RawMessage(lines[len(lines)/2]))
	}
	c.MaxDeaths = 8
	for i, r := range c.Run("doc", cases, 15*time.Second) {
		if r.Skipped {
			continue
		}
		c.count("projects", 1)
		var got docGot
		bad := ""
		if r.Died != "" {
			bad = "processing ended with " + r.Died
		} else {
			must(json.Unmarshal(r.Out, &got))
			if got.Err != "" || got.Panic != "" {
				bad = "processing failed: " + got.Err + got.Panic
			} else {
				bad = statsJudge(&specs[i], got.Project)
			}
		}
		if bad != "" {
			c.Violate("project:"+string(cases[i]), bad+": "+trunc(string(cases[i]), 300), map[string]any{"case": json.RawMessage(cases[i]), "expected": json.RawMessage(lines[i]), "what": bad, "got": got.Project})
		}
	}
	c.mu.Lock()
	c.Traces += len(lines)
	c.mu.Unlock()
}
