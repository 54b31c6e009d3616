package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	w2bhttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/util"
	"wiki2book/wikipedia"
)

func init() {
	workers["wikinames"] = wikiNamesWorker
	checks["W04"] = checkW04
}

type wnItem struct {
	K string `json:"k"`
	H string `json:"h"`
	N []int  `json:"n"`
}

type wnEvent struct {
	K     string   `json:"k"`
	N     []int    `json:"n"`
	Reqs  []wnItem `json:"reqs"`
	Ok    bool     `json:"ok"`
	Title []int    `json:"title"`
	Got   wnItem   `json:"got"`
	Err   string   `json:"err"`
}

type wnCase struct {
	Instance  string      `json:"instance"`
	Host      string      `json:"host"`
	ImageHost string      `json:"imageHost"`
	Ops       [][2]string `json:"ops"` // kind, name
}

func runes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// wnTarget mirrors Target of the specification.
func wnTarget(n string) string {
	sum := 0
	for _, r := range n {
		sum += int(r)
	}
	if sum%3 == 0 {
		return n + "R"
	}
	return n
}

type wnWorld struct {
	mu   sync.Mutex
	reqs []wnItem
	text map[string]wnItem
}

// content: the text a server has for an item, full of characters that are special to JSON and HTML
func (x *wnWorld) content(it wnItem) string {
	s := fmt.Sprintf("Text %q of <%s> %d\n\t\"{{x}}\" \\u0041 \\ \u2028 \U0001f600 &amp; '''ä''' %s", it.K, it.H, len(x.text), toJSON(it.N))
	for t, o := range x.text {
		if toJSON(o) == toJSON(it) {
			return t
		}
	}
	x.text[s] = it
	return s
}

func (x *wnWorld) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	_, _ = io.ReadAll(r.Body)
	x.mu.Lock()
	defer x.mu.Unlock()
	q, err := url.ParseQuery(r.URL.RawQuery)
	log := func(k, n string) wnItem {
		it := wnItem{k, r.Host, runes(n)}
		x.reqs = append(x.reqs, it)
		return it
	}
	has := func(k, v string) bool { return len(q[k]) == 1 && q[k][0] == v }
	switch {
	case err == nil && r.Method == "GET" && r.URL.Path == "/w/api.php" && has("action", "parse") && has("format", "json") && has("prop", "wikitext") && len(q["page"]) == 1 && len(q) == 5:
		n := q["page"][0]
		title := n
		if strings.HasPrefix(n, "File:") {
			title = "File:" + wnTarget(strings.TrimPrefix(n, "File:"))
		} else if len(n)%2 == 0 {
			title = "Somewhere else"
		}
		b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": strings.ReplaceAll(title, "_", " "), "wikitext": map[string]string{"*": x.content(log("page", n))}}})
		_, _ = w.Write(b)
	case err == nil && r.Method == "GET" && r.URL.Path == "/w/api.php" && has("action", "expandtemplates") && has("format", "json") && has("prop", "wikitext") && len(q["text"]) == 1 && len(q) == 4:
		b, _ := json.Marshal(map[string]any{"expandtemplates": map[string]any{"wikitext": x.content(log("template", q["text"][0]))}})
		_, _ = w.Write(b)
	case r.Method == "GET" && r.Host == wikiImageHost && r.URL.RawQuery == "":
		parts := strings.Split(strings.TrimPrefix(r.URL.EscapedPath(), "/"), "/")
		if len(parts) == 5 && parts[0] == "wikipedia" {
			n, err := url.PathUnescape(parts[4])
			sum := fmt.Sprintf("%x", md5.Sum([]byte(n)))
			if err == nil && parts[2] == sum[:1] && parts[3] == sum[:2] {
				it := wnItem{"file", parts[1] + ".wikimedia.org", runes(n)}
				x.reqs = append(x.reqs, it)
				_, _ = io.WriteString(w, x.content(it))
				return
			}
		}
		log("badfile", r.URL.Path)
		w.WriteHeader(404)
	default:
		log("unknown", r.Method+" "+r.URL.String())
		w.WriteHeader(404)
	}
}

func wikiNamesWorker() {
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	world := &wnWorld{}
	serveAllHosts(world)
	n := 0
	workerLoop(func(in []byte) any {
		var cas wnCase
		must(json.Unmarshal(in, &cas))
		n++
		dir := filepath.Join(wd, fmt.Sprintf("names%d", n))
		must(os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755))
		defer os.RemoveAll(dir)
		cfg := config.NewDefaultConfig()
		cfg.CacheDir = dir
		cfg.CacheEvictionStrategy = "none"
		cfg.CommandTemplateSvgToPng, cfg.CommandTemplatePdfToPng, cfg.CommandTemplateWebpToPng, cfg.CommandTemplateImageProcessing = "", "", "", ""
		config.Current = cfg
		world.mu.Lock()
		world.text = map[string]wnItem{}
		world.mu.Unlock()
		svc := wikipedia.NewWikipediaService(cas.Instance, cas.Host, []string{cas.ImageHost}, wikiImageHost, "", image.NewImageProcessingService(), w2bhttp.NewDefaultHttpService())
		evs := []wnEvent{}
		for _, o := range cas.Ops {
			world.mu.Lock()
			world.reqs = []wnItem{}
			world.mu.Unlock()
			ev := wnEvent{K: o[0], N: runes(o[1]), Title: []int{}, Got: wnItem{"nothing", "", []int{}}}
			var text, title string
			var err error
			switch o[0] {
			case "article":
				var dto *wikipedia.WikiArticleDto
				dto, err = svc.DownloadArticle(cas.Instance+"."+cas.Host, o[1])
				if err == nil {
					text, title = dto.Parse.Wikitext.Content, dto.Parse.OriginalTitle
				}
			case "template":
				text, err = svc.EvaluateTemplate(o[1], util.Hash(o[1]))
			case "image":
				err = svc.DownloadImages([]string{"File:" + o[1]})
				if err == nil {
					b, e := os.ReadFile(cache.GetFilePathInCache(cache.ImageCacheDirName, strings.ReplaceAll(o[1], " ", "_")))
					text, err = string(b), e
				}
			}
			ev.Ok = err == nil
			if err != nil {
				ev.Err = trunc(err.Error(), 300)
			}
			ev.Title = runes(title)
			world.mu.Lock()
			ev.Reqs = world.reqs
			if it, ok := world.text[text]; ok {
				ev.Got = it
			}
			world.mu.Unlock()
			evs = append(evs, ev)
		}
		return map[string]any{"host": cas.Instance + "." + cas.Host, "imageHost": cas.ImageHost, "events": evs}
	})
}

func checkW04(c *Check) {
	c.Assumptions = []string{"a cache directory belongs to one wiki (doc/caches.md: its files are named after the articles alone)", "image names are not '.' or '..'", "names contain no control characters; template texts may"}
	syms := map[string]string{"sp": " ", "us": "_", "amp": "&", "quest": "?", "hash": "#", "plus": "+", "pct": "%", "slash": "/", "colon": ":", "eq": "=", "semi": ";",
		"quot": "\"", "apos": "'", "back": "\\", "lt": "<", "gt": ">", "lb": "{", "rb": "}", "ls": "[", "rs": "]", "pipe": "|", "auml": "ä", "cjk": "日", "smile": "\U0001f600",
		"a": "a", "B": "B", "two": "2", "F": "F", "dot": ".", "dollar": "$", "star": "*", "tilde": "~", "comb": "e\u0301", "comma": ",", "at": "@", "bang": "!", "lp": "(", "minus": "-", "nl": "\n", "tab": "\t"}
	gen := func(set []string, maxLen int, sim int) []string {
		o := TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf("INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Symbols = %s\n MaxLen = %d\n", tlaSet(set), maxLen)}
		if sim > 0 {
			o.Cfg = strings.Replace(o.Cfg, "NEXT Next\n", "NEXT NextRandom\n", 1)
			o = simulated(o, sim, maxLen, c.Seed)
		}
		var out []string
		for _, l := range c.Generate(o) {
			var s []string
			must(json.Unmarshal(l, &s))
			n := ""
			for _, x := range s {
				n += syms[x]
			}
			if n != "" && n != "." && n != ".." {
				out = append(out, n)
			}
		}
		return out
	}
	var all, printable []string
	for s := range syms {
		all = append(all, s)
		if s != "nl" && s != "tab" {
			printable = append(printable, s)
		}
	}
	url := []string{"sp", "us", "amp", "quest", "hash", "plus", "pct", "slash", "colon", "eq", "two", "F", "dot"}
	names := append(gen(printable, 2, 0), gen(url, c.pick(3, 4), 0)...)
	names = append(names, gen(printable, 10, c.pick(100, 2000))...)
	texts := append(gen(all, 2, 0), gen(all, 14, c.pick(100, 2000))...)
	for i := range texts {
		if i%3 == 0 {
			texts[i] = "{{" + texts[i] + "}}"
		}
	}
	uniq := func(xs []string) []string {
		seen := map[string]bool{}
		var out []string
		for _, x := range xs {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		return out
	}
	names, texts = uniq(names), uniq(texts)
	c.count("names", len(names))
	c.count("template_texts", len(texts))
	rnd := rand.New(rand.NewSource(c.Seed))
	var ops [][2]string
	for _, n := range names {
		ops = append(ops, [2]string{"article", n}, [2]string{"image", n})
	}
	for _, x := range texts {
		ops = append(ops, [2]string{"template", x})
	}
	rnd.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	var cases []wnCase
	const group = 60
	wikis := [][2]string{{"en", "wikipedia.org"}, {"de", "wikipedia.org"}, {"minecraft", "fandom.example"}, {"zh-min-nan", "wiktionary.org"}}
	for i := 0; i < len(ops); i += group {
		wk := wikis[(i/group)%len(wikis)]
		cas := wnCase{Instance: wk[0], Host: wk[1], ImageHost: "commons.wikimedia.org", Ops: append([][2]string{}, ops[i:min(i+group, len(ops))]...)}
		for k := 0; k < 20; k++ {
			o := cas.Ops[rnd.Intn(len(cas.Ops))]
			switch rnd.Intn(3) {
			case 0: // the same name as another kind of item
				o[0] = []string{"article", "image"}[rnd.Intn(2)]
				o[1] = strings.Map(func(r rune) rune {
					if r < 32 {
						return 'x'
					}
					return r
				}, o[1])
			case 1: // the other spelling
				if o[0] != "template" {
					o[1] = strings.ReplaceAll(o[1], "_", " ")
				}
			}
			cas.Ops = append(cas.Ops, o)
		}
		cases = append(cases, cas)
	}
	results := c.Run("wikinames", marshalAll(cases), 60*time.Second)
	var traces [][]byte
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate(fmt.Sprintf("died:wikinames:%d", i), "the process ended ("+r.Died+"): "+firstLine(r.Stderr), cases[i])
			continue
		}
		traces = append(traces, r.Out)
		idx = append(idx, i)
	}
	if len(traces) > 0 {
		var tr struct{ Events []wnEvent }
		must(json.Unmarshal(traces[0], &tr))
		c.Sample(map[string]any{"events": tr.Events[:5], "ops": cases[idx[0]].Ops[:5]})
	}
	for _, rj := range c.Validate("WikiNames", traceCfg, nil, traces) {
		var tr struct{ Events []wnEvent }
		must(json.Unmarshal(traces[rj.Trace], &tr))
		ev, o := tr.Events[rj.Matched], cases[idx[rj.Trace]].Ops[rj.Matched]
		c.Violate(fmt.Sprintf("%s:%q", o[0], o[1]), fmt.Sprintf("%s %q (operation %d of its case): %s: not the wanted item, host, or content", o[0], o[1], rj.Matched+1, toJSON(ev)),
			map[string]any{"kind": "wikinames", "case": cases[idx[rj.Trace]], "event": ev})
	}
}
