package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"wiki2book/config"
	"wiki2book/generator"
	w2bhttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/parser"
	"wiki2book/wikipedia"

	"github.com/hauke96/sigolo/v2"
)

// The way of an article's text: wikitext in, HTML document (or statistics) out.

func init() {
	workers["doc"] = docWorker
}

type docCase struct {
	Text      string            `json:"text"`
	Title     string            `json:"title"`
	Templates map[string]string `json:"templates"` // name -> body, with {1}, {2}... for its arguments
	Config    json.RawMessage   `json:"config"`    // settings other than the defaults
	Stats     bool              `json:"stats"`     // make statistics, too
	Project   []docArticle      `json:"project"`   // make the statistics of these articles instead
}

type docGot struct {
	Html    string         `json:"html"`   // the document's body after the title
	Title   string         `json:"title"`  // its title
	Asked   []string       `json:"asked"`  // templates the server was asked for
	Images  []string       `json:"images"` // files the article needs
	Stats   map[string]any `json:"stats"`
	Project *statsGot      `json:"project"`
	Err     string         `json:"err"`
	Panic   string         `json:"panic"`
}

type docWorld struct {
	mu        sync.Mutex
	templates map[string]string
	asked     []string
}

// expand does what MediaWiki does for the templates of the case: the innermost calls first.
func (x *docWorld) expand(text string) string {
	for n := 0; n < 1000; n++ {
		end := strings.Index(text, "}}")
		if end < 0 {
			return text
		}
		start := strings.LastIndex(text[:end], "{{")
		if start < 0 {
			return text
		}
		text = text[:start] + x.call(text[start+2:end]) + text[end+2:]
	}
	return "(too many templates)"
}

func (x *docWorld) call(inner string) string {
	args := splitOutsideLinks(inner)
	body, ok := x.templates[strings.TrimSpace(args[0])]
	if !ok {
		return "(no template " + inner + ")"
	}
	for i := 1; i <= 4; i++ {
		v := ""
		if i < len(args) {
			v = args[i]
		}
		body = strings.ReplaceAll(body, fmt.Sprintf("{%d}", i), v)
		// "{?1:yes:no}" looks whether there is a first argument
		if m := regexp.MustCompile(fmt.Sprintf(`\{\?%d:([^:}]*):([^:}]*)\}`, i)).FindStringSubmatchIndex(body); m != nil {
			if strings.TrimSpace(v) != "" {
				body = body[:m[0]] + body[m[2]:m[3]] + body[m[1]:]
			} else {
				body = body[:m[0]] + body[m[4]:m[5]] + body[m[1]:]
			}
		}
	}
	return body
}

// splitOutsideLinks splits at "|" except inside [[...]].
func splitOutsideLinks(s string) []string {
	var out []string
	depth, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case strings.HasPrefix(s[i:], "[["):
			depth++
			i++
		case strings.HasPrefix(s[i:], "]]") && depth > 0:
			depth--
			i++
		case s[i] == '|' && depth == 0:
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

const docMathPrefix = `{\displaystyle `

func (x *docWorld) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	x.mu.Lock()
	defer x.mu.Unlock()
	q := r.URL.Query()
	switch p := r.URL.Path; {
	case q.Get("action") == "expandtemplates":
		x.asked = append(x.asked, q.Get("text"))
		b, _ := json.Marshal(map[string]any{"expandtemplates": map[string]any{"wikitext": x.expand(q.Get("text"))}})
		_, _ = w.Write(b)
	case strings.HasSuffix(p, "/check/tex"):
		f, _ := url.ParseQuery(string(body))
		t := f.Get("q")
		t = strings.TrimSuffix(strings.TrimPrefix(t, docMathPrefix), "}")
		w.Header().Set("x-resource-location", "f"+hex.EncodeToString([]byte(t)))
		_, _ = io.WriteString(w, "{}")
	case strings.Contains(p, "/render/svg/"):
		f, _ := hex.DecodeString(p[strings.LastIndex(p, "/")+2:])
		fmt.Fprintf(w, `<svg xmlns="http://www.w3.org/2000/svg" width="%dex" height="2.5ex" style="vertical-align: -0.5ex;" viewBox="0 0 10 10"></svg>`, len(f)+1)
	case strings.Contains(p, "/render/png/"):
		_, _ = io.WriteString(w, "png")
	default:
		w.WriteHeader(404)
	}
}

func docWorker() {
	sigolo.SetDefaultLogLevel(sigolo.LOG_FATAL)
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	world := &docWorld{}
	serveAllHosts(world)
	n := 0
	workerLoop(func(in []byte) any {
		var cas docCase
		must(json.Unmarshal(in, &cas))
		n++
		dir := filepath.Join(wd, fmt.Sprintf("doc%d", n))
		must(os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755))
		defer os.RemoveAll(dir)
		cfg := config.NewDefaultConfig()
		if len(cas.Config) > 0 {
			must(json.Unmarshal(cas.Config, cfg))
		}
		cfg.CacheDir = dir
		cfg.CacheEvictionStrategy = "none"
		config.Current = cfg
		world.mu.Lock()
		world.templates, world.asked = cas.Templates, []string{}
		world.mu.Unlock()
		svc := wikipedia.NewWikipediaService("en", "wiki.test", []string{"wiki.test"}, "img.test", "https://math.test/math", image.NewImageProcessingService(), w2bhttp.NewDefaultHttpService())
		return runDoc(world, svc, &cas)
	})
}

func runDoc(world *docWorld, svc wikipedia.WikipediaService, cas *docCase) (got *docGot) {
	got = &docGot{Asked: []string{}, Images: []string{}}
	defer func() {
		if p := recover(); p != nil {
			got.Panic = fmt.Sprint(p)
		}
		world.mu.Lock()
		got.Asked = append(got.Asked, world.asked...)
		world.mu.Unlock()
	}()
	if len(cas.Project) > 0 {
		var err error
		if got.Project, err = docProject(svc, cas.Project); err != nil {
			got.Err = trunc(err.Error(), 400)
		}
		return
	}
	t := parser.NewTokenizer(svc)
	article, err := t.Tokenize(cas.Text, cas.Title)
	if err != nil {
		got.Err = "tokenizing: " + trunc(err.Error(), 400)
		return
	}
	got.Images = append(got.Images, article.Images...)
	g := &generator.HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: svc}
	file, err := g.Generate(article)
	if err != nil {
		got.Err = "generating: " + trunc(err.Error(), 400)
		return
	}
	b, err := os.ReadFile(file)
	must(err)
	got.Html = string(b)
	if i := strings.Index(got.Html, "<h1>"); i >= 0 {
		got.Html = got.Html[i+4:]
		if i = strings.Index(got.Html, "</h1>"); i >= 0 {
			got.Title, got.Html = got.Html[:i], got.Html[i+5:]
		}
	}
	if i := strings.LastIndex(got.Html, "</body>"); i >= 0 {
		got.Html = got.Html[:i]
	}
	if cas.Stats {
		file, err = generator.NewStatsGenerator(article.TokenMap).Generate(article)
		if err != nil {
			got.Err = "statistics: " + trunc(err.Error(), 400)
			return
		}
		b, err = os.ReadFile(file)
		must(err)
		must(json.Unmarshal(b, &got.Stats))
	}
	return
}

var reDocTag = regexp.MustCompile(`<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s<>"']+))?)*)\s*(/?)>`)
var reDocAttr = regexp.MustCompile(`([a-zA-Z:-]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s<>"']+))`)
var docInline = map[string]bool{"b": true, "i": true, "a": true, "img": true, "span": true, "sub": true, "sup": true, "small": true}
var docKept = map[string]string{"img": " src style ", "a": " href "}
var reSpace = regexp.MustCompile(`[ \t\r\n]+`)

// docTokens turns HTML into its tags (with the attributes that matter) and the text between them; white space counts only
// inside of running text.
func docTokens(s string) []string {
	var out []string
	add := func(t string) {
		if t == "" {
			return
		}
		if len(out) > 0 && !strings.HasPrefix(out[len(out)-1], "<") && !strings.HasPrefix(t, "<") {
			out[len(out)-1] += t
		} else {
			out = append(out, t)
		}
	}
	for {
		m := reDocTag.FindStringSubmatchIndex(s)
		if m == nil {
			add(s)
			break
		}
		add(s[:m[0]])
		name := strings.ToLower(s[m[4]:m[5]])
		tag := "<" + s[m[2]:m[3]] + name
		kept := docKept[name]
		if kept == "" {
			kept = " class colspan rowspan style "
		}
		var attrs []string
		for _, a := range reDocAttr.FindAllStringSubmatch(s[m[6]:m[7]], -1) {
			k, v := strings.ToLower(a[1]), a[2]+a[3]+a[4]
			if strings.Contains(kept, " "+k+" ") {
				if k == "src" {
					v = docSource(v)
				}
				if k == "style" {
					if v = docStyle(v); v == "" {
						continue
					}
				}
				attrs = append(attrs, k+"="+v)
			}
		}
		sort.Strings(attrs)
		if name == "img" && len(attrs) == 2 && strings.HasPrefix(attrs[0], "src=math:") {
			if attrs[1] == fmt.Sprintf("style=width:%dex;height:2.5ex;vertical-align:-0.5ex", len(attrs[0])-len("src=math:")+1) {
				attrs = attrs[:1]
			}
		}
		for _, a := range attrs {
			tag += " " + a
		}
		out = append(out, tag+">")
		s = s[m[1]:]
	}
	// white space
	block := func(i int) bool {
		if i < 0 || i >= len(out) {
			return true
		}
		if !strings.HasPrefix(out[i], "<") {
			return false
		}
		n := strings.FieldsFunc(out[i], func(r rune) bool { return strings.ContainsRune("</ >", r) })
		return len(n) > 0 && !docInline[n[0]]
	}
	var res []string
	atStart := true // nothing but block tags and inline tags since the last block tag
	pending := false
	for i, t := range out {
		switch {
		case block(i):
			res = append(res, t)
			atStart, pending = true, false
		case strings.HasPrefix(t, "<"):
			if strings.HasPrefix(t, "<img") {
				if pending {
					res = append(res, " ")
				}
				pending, atStart = false, false
			}
			res = append(res, t)
		default:
			t = reSpace.ReplaceAllString(t, " ")
			if strings.HasPrefix(t, " ") {
				t = t[1:]
				pending = pending || !atStart
			}
			if t == "" {
				continue
			}
			if pending {
				t = " " + t
			}
			pending = false
			if strings.HasSuffix(t, " ") {
				t = t[:len(t)-1]
				pending = true
			}
			atStart = false
			res = append(res, t)
		}
	}
	// a space next to inline tags counts as being before them
	return res
}

func docStyle(v string) string {
	var out []string
	for _, p := range strings.Split(v, ";") {
		kv := strings.SplitN(p, ":", 2)
		for i := range kv {
			kv[i] = strings.TrimSpace(kv[i])
		}
		if p = strings.Join(kv, ":"); p != "" && p != "vertical-align:middle" {
			out = append(out, p)
		}
	}
	return strings.Join(out, ";")
}

func docSource(v string) string {
	v = strings.TrimPrefix(v, "./")
	if u, err := url.QueryUnescape(v); err == nil {
		v = u
	}
	v = strings.TrimPrefix(v, "images/")
	if strings.HasPrefix(v, "f") && strings.HasSuffix(v, ".png") {
		if b, err := hex.DecodeString(v[1 : len(v)-4]); err == nil && utf8.Valid(b) {
			return "math:" + string(b)
		}
	}
	return v
}

func docTry(args []string) {
	c := newCheck("P07", filepath.Join(os.TempDir(), fmt.Sprintf("doctry%d", os.Getpid())), os.Getenv("VERIF_DIR"), os.Getenv("VERIF_REPO"))
	defer os.RemoveAll(c.Scratch)
	var cases [][]byte
	for _, a := range args {
		b, err := os.ReadFile(a)
		must(err)
		for _, t := range strings.Split(string(b), "\n%%%\n") {
			j, _ := json.Marshal(docCase{Text: strings.TrimSuffix(t, "\n"), Title: "T", Stats: true, Templates: map[string]string{"X": "<{1}>", "D": "{1}{1}"}})
			cases = append(cases, j)
		}
	}
	for i, r := range c.Run("doc", cases, 20*time.Second) {
		var cas docCase
		_ = json.Unmarshal(cases[i], &cas)
		fmt.Printf("----\n%s\n", cas.Text)
		if r.Died != "" {
			fmt.Println("DIED", r.Died, tail(r.Stderr, 300))
			continue
		}
		var got docGot
		_ = json.Unmarshal(r.Out, &got)
		fmt.Printf("=> %s\n", strings.Join(docTokens(got.Html), "¦"))
		if got.Err+got.Panic != "" {
			fmt.Println("   ERR", got.Err, "PANIC", got.Panic)
		}
		fmt.Println("   characters", got.Stats["number-of-characters"], "words", got.Stats["number-of-words"])
		if len(got.Asked)+len(got.Images) > 0 {
			fmt.Println("   asked", toJSON(got.Asked), "images", toJSON(got.Images))
		}
	}
}
