package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	w2bhttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/util"
	"wiki2book/wikipedia"
)

func init() {
	workers["wiki"] = wikiWorker
	checks["W01"] = checkW01
	checks["W02"] = checkW02
	checks["W03"] = checkW03
}

type wikiOp struct {
	Op   string   `json:"op"`
	N    string   `json:"n"`
	Fail []string `json:"fail"`
}

type wikiCase struct {
	Hosts []string            `json:"hosts"`
	Has   []map[string]string `json:"has"`
	Conv  []string            `json:"conv"`
	Proc  bool                `json:"proc"`
	Math  string              `json:"math"`
	Ext   strMap              `json:"ext"`
	Ops   []wikiOp            `json:"ops"`
	Space bool                `json:"space"` // the cache directory's path contains spaces
	Nr    int                 `json:"nr"`
	Par   bool                `json:"par"` // all operations at the same time
}

// strMap: a TLA+ function over strings; the empty one is written as an empty array
type strMap map[string]string

func (m *strMap) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		*m = strMap{}
		return nil
	}
	return json.Unmarshal(b, (*map[string]string)(m))
}

type wikiReq struct {
	K string `json:"k"`
	H string `json:"h"`
	N string `json:"n"`
}
type wikiCmd struct {
	K   string `json:"k"`
	In  string `json:"in"`
	Out string `json:"out"`
}
type wikiFile struct {
	N string `json:"n"`
	C string `json:"c"`
}
type wikiEvent struct {
	Op    string     `json:"op"`
	N     string     `json:"n"`
	Fail  []string   `json:"fail"`
	Reqs  []wikiReq  `json:"reqs"`
	Cmds  []wikiCmd  `json:"cmds"`
	Ok    bool       `json:"ok"`
	Out   []string   `json:"out"`
	Files []wikiFile `json:"files"`
	Err   string     `json:"err"`
	Par   []wikiOp   `json:"par,omitempty"`
}

// wikiWorld answers as the hosts of the case would.
type wikiWorld struct {
	mu   sync.Mutex
	cas  wikiCase
	op   int
	reqs []wikiReq
}

const wikiImageHost = "upload.wikimedia.org"
const wikiMathHost = "math.example.org"

func (x *wikiWorld) failing(what string) bool {
	for _, f := range x.cas.Ops[x.op].Fail {
		if f == what {
			return true
		}
	}
	return false
}

// breakage: a failure of some kind, different from case to case
func (x *wikiWorld) breakage(w http.ResponseWriter, what string, body []byte) {
	h := fnv.New32()
	fmt.Fprintf(h, "%d/%d/%s", x.cas.Nr, x.op, what)
	switch h.Sum32() % 6 {
	case 0:
		w.WriteHeader(404)
	case 1:
		w.WriteHeader(500)
		_, _ = w.Write(body)
	case 2:
		w.Header().Set("mediawiki-api-error", "internal_api_error")
		_, _ = w.Write(body)
	case 3:
		abort(w, "", nil)
	case 4:
		abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body)+1), body)
	case 5:
		w.WriteHeader(403)
	}
}

func (x *wikiWorld) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	if x.cas.Par {
		h := fnv.New32()
		fmt.Fprintf(h, "%d/%d", x.cas.Nr, len(x.reqs))
		time.Sleep(time.Duration(h.Sum32()%4) * time.Millisecond)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	log := func(k, h, n string) { x.reqs = append(x.reqs, wikiReq{k, h, n}) }
	host := r.Host
	switch {
	case r.Method == "GET" && r.URL.Path == "/w/api.php" && r.URL.Query().Get("action") == "parse":
		page := r.URL.Query().Get("page")
		name := strings.TrimPrefix(page, "File:")
		log("page", host, name)
		for i, h := range x.cas.Hosts {
			out := x.cas.Has[i][name]
			if h != host || !strings.HasPrefix(page, "File:") {
				continue
			}
			title := name
			if strings.HasPrefix(out, "redir") {
				title = "R_" + name
			}
			b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": "File:" + strings.ReplaceAll(title, "_", " "), "wikitext": map[string]string{"*": "about"}}})
			if x.failing(fmt.Sprintf("page%d", i+1)) {
				x.breakage(w, "page", b)
				return
			}
			if out == "none" || out == "" {
				break
			}
			_, _ = w.Write(b)
			return
		}
		w.Header().Set("mediawiki-api-error", "missingtitle")
		_, _ = w.Write([]byte(`{"error":{"code":"missingtitle"}}`))
	case r.Method == "GET" && host == wikiImageHost:
		parts := strings.Split(strings.TrimPrefix(r.URL.EscapedPath(), "/"), "/")
		if len(parts) != 5 || parts[0] != "wikipedia" {
			log("badfile", host, r.URL.Path)
			w.WriteHeader(404)
			return
		}
		title, err := url.PathUnescape(parts[4])
		sum := fmt.Sprintf("%x", md5.Sum([]byte(title)))
		if err != nil || parts[2] != sum[:1] || parts[3] != sum[:2] {
			log("badfile", host, r.URL.Path)
			w.WriteHeader(404)
			return
		}
		for i, h := range x.cas.Hosts {
			if strings.SplitN(h, ".", 2)[0] != parts[1] {
				continue
			}
			log("file", h, title)
			b := []byte("F(" + h + ":" + title + ")")
			if x.failing(fmt.Sprintf("file%d", i+1)) {
				x.breakage(w, "file", b)
				return
			}
			if x.cas.Has[i][title] == "own" || (strings.HasPrefix(title, "R_") && x.cas.Has[i][strings.TrimPrefix(title, "R_")] == "redir") {
				_, _ = w.Write(b)
				return
			}
			w.WriteHeader(404)
			return
		}
		log("badfile", host, r.URL.Path)
		w.WriteHeader(404)
	case host == wikiMathHost && r.URL.Path == "/api/check/tex" && r.Method == "POST":
		q, err := url.ParseQuery(string(body))
		m := q.Get("q")
		if err != nil || !strings.HasPrefix(m, `{\displaystyle `) || !strings.HasSuffix(m, "}") || len(q) != 1 {
			log("badcheck", "", string(body))
			w.WriteHeader(400)
			return
		}
		m = mathName(strings.TrimSuffix(strings.TrimPrefix(m, `{\displaystyle `), "}"))
		log("check", "", m)
		if x.failing("check") {
			x.breakage(w, "check", []byte("{}"))
			return
		}
		if !x.failing("noloc") {
			w.Header().Set("x-resource-location", "tok_"+m)
		}
		_, _ = w.Write([]byte(`{"success":true}`))
	case r.Method == "GET" && host == wikiMathHost && (strings.HasPrefix(r.URL.Path, "/api/render/svg/") || strings.HasPrefix(r.URL.Path, "/api/render/png/")):
		k, tok := r.URL.Path[12:15], r.URL.Path[16:]
		log(k, "", tok)
		b := []byte(strings.ToUpper(k[:1]) + "(" + strings.TrimPrefix(tok, "tok_") + ")")
		if x.failing(k) {
			x.breakage(w, k, b)
			return
		}
		_, _ = w.Write(b)
	default:
		log("unknown", host, r.Method+" "+r.URL.String())
		w.WriteHeader(404)
	}
}

// The formulas of the specification are named; these are what they stand for.
var mathText = map[string]string{"m1": `\frac{a}{b} + "c" & d`, "m2": `\frac{a}{b} + "c" & e`, "m3": ``, "m4": "x%2By=1", "m5": "x+y=1", "m6": "a\nb ü", "m7": "x+y=1 "}

func mathName(text string) string {
	for k, v := range mathText {
		if v == text {
			return k
		}
	}
	return "unknown formula " + text
}

func wikiWorker() {
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	exe, err := os.Executable()
	must(err)
	world := &wikiWorld{}
	serveAllHosts(world)
	n := 0
	workerLoop(func(in []byte) any {
		var cas wikiCase
		must(json.Unmarshal(in, &cas))
		n++
		root := filepath.Join(wd, fmt.Sprintf("wiki%d", n))
		dir := filepath.Join(root, "cache")
		if cas.Space {
			dir = filepath.Join(root, "my own", "cache & co")
		}
		must(os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755))
		defer os.RemoveAll(root)
		ctl := filepath.Join(root, "cmdlog")
		tmpl := func(kind string) string {
			return exe + " fakecmd " + ctl + " " + kind + " " + config.InputPlaceholder + " " + config.OutputPlaceholder
		}
		cfg := config.NewDefaultConfig()
		cfg.CacheDir = dir
		cfg.CacheEvictionStrategy = "none"
		cfg.CommandTemplateSvgToPng, cfg.CommandTemplatePdfToPng, cfg.CommandTemplateWebpToPng, cfg.CommandTemplateImageProcessing = "", "", "", ""
		for _, e := range cas.Conv {
			switch e {
			case "svg":
				cfg.CommandTemplateSvgToPng = tmpl("convsvg")
			case "pdf":
				cfg.CommandTemplatePdfToPng = tmpl("convpdf")
			case "webp":
				cfg.CommandTemplateWebpToPng = tmpl("convwebp")
			}
		}
		if cas.Proc {
			cfg.CommandTemplateImageProcessing = tmpl("proc")
		}
		cfg.MathConverter = cas.Math
		cfg.CommandTemplateMathSvgToPng = tmpl("math")
		cfg.WikipediaImageArticleHosts = cas.Hosts
		config.Current = cfg
		world.mu.Lock()
		world.cas, world.op = cas, 0
		world.mu.Unlock()
		var svc wikipedia.WikipediaService
		images := filepath.Join(dir, "images")
		// names of the case for the file names they have in the cache
		named := map[string]string{}
		for n := range cas.Ext {
			named[filepath.Base(cache.GetFilePathInCache(cache.ImageCacheDirName, n))] = n
		}
		base := func(p string) string {
			p = filepath.Base(p)
			if n, ok := named[p]; ok {
				return n
			}
			return p
		}
		evs := []wikiEvent{}
		ops := cas.Ops
		if cas.Par {
			ops = []wikiOp{{Op: "par", Fail: []string{}}}
		}
		for i, o := range ops {
			if svc == nil || i%2 == 0 {
				// now and then the program is started anew
				svc = wikipedia.NewWikipediaService("en", "wikipedia.org", cas.Hosts, wikiImageHost, "https://"+wikiMathHost+"/api", image.NewImageProcessingService(), w2bhttp.NewDefaultHttpService())
			}
			world.mu.Lock()
			world.op, world.reqs = i, []wikiReq{}
			world.mu.Unlock()
			_ = os.Remove(ctl)
			must(os.WriteFile(ctl+".fail", []byte(strings.Join(o.Fail, " ")), 0o644))
			ev := wikiEvent{Op: o.Op, N: o.N, Fail: o.Fail, Cmds: []wikiCmd{}, Out: []string{}, Files: []wikiFile{}, Ok: true}
			switch o.Op {
			case "par":
				ev.Par = cas.Ops
				errs := make([]error, len(cas.Ops))
				var wg sync.WaitGroup
				for k, p := range cas.Ops {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if p.Op == "math" {
							_, _, errs[k] = svc.RenderMath(mathText[p.N])
						} else {
							name := "File:" + p.N
							if k%2 == 1 {
								name = "Image:" + strings.ReplaceAll(p.N, "_", " ")
							}
							errs[k] = svc.DownloadImages([]string{name})
						}
					}()
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						ev.Ok, ev.Err = false, trunc(err.Error(), 300)
					}
				}
			case "image":
				name := []string{"File:", "Image:", "Datei:"}[(cas.Nr+i)%3] + o.N
				if (cas.Nr+i)%2 == 0 {
					name = strings.ReplaceAll(name, "_", " ")
				}
				err := svc.DownloadImages([]string{name})
				if err != nil {
					ev.Ok, ev.Err = false, trunc(err.Error(), 300)
				}
			case "math":
				svg, png, err := svc.RenderMath(mathText[o.N])
				if err != nil {
					ev.Ok, ev.Err = false, trunc(err.Error(), 300)
				} else {
					for _, p := range []string{svg, png} {
						if filepath.Dir(p) == images {
							p = base(p)
						}
						ev.Out = append(ev.Out, p)
					}
				}
			case "dropfile":
				_ = os.Remove(cache.GetFilePathInCache(cache.ImageCacheDirName, o.N))
			case "droppage":
				_ = os.Remove(cache.GetFilePathInCache(cache.ArticleCacheDirName, "File:"+o.N+".json"))
			case "droptok":
				_ = os.Remove(cache.GetFilePathInCache(cache.MathCacheDirName, util.Hash(mathText[o.N])))
			}
			world.mu.Lock()
			ev.Reqs = world.reqs
			world.mu.Unlock()
			if b, err := os.ReadFile(ctl); err == nil {
				for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
					var c wikiCmd
					must(json.Unmarshal([]byte(l), &c))
					for _, p := range []*string{&c.In, &c.Out} {
						if filepath.Dir(*p) == images {
							*p = base(*p)
						}
					}
					ev.Cmds = append(ev.Cmds, c)
				}
			}
			es, _ := os.ReadDir(images)
			for _, e := range es {
				b, _ := os.ReadFile(filepath.Join(images, e.Name()))
				ev.Files = append(ev.Files, wikiFile{base(e.Name()), string(b)})
			}
			evs = append(evs, ev)
		}
		return evs
	})
}

// fakeCommand stands for the external commands: it logs its call and writes a term over its input's content.
// args: log file, kind, input, output
func fakeCommand(args []string) {
	if len(args) < 4 {
		fmt.Fprintln(os.Stderr, "fakecmd: bad arguments", args)
		os.Exit(9)
	}
	log, kind, in, out := args[0], args[1], args[2], args[3]
	wd, _ := os.Getwd()
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(wd, p)
	}
	k := kind
	if len(args) > 4 {
		k = "extra:" + strings.Join(args[4:], ":") + kind
	}
	f, err := os.OpenFile(log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	_, _ = f.WriteString(toJSON(wikiCmd{k, abs(in), abs(out)}) + "\n")
	_ = f.Close()
	content, err := os.ReadFile(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakecmd:", err)
		os.Exit(8)
	}
	fn := kind
	if strings.HasPrefix(kind, "conv") {
		fn = "conv"
	}
	fail, _ := os.ReadFile(log + ".fail")
	for _, x := range strings.Fields(string(fail)) {
		if x == fn || (x == "conv" && fn == "math") {
			if len(content)%2 == 0 {
				_ = os.WriteFile(out, []byte("unfinished"), 0o644)
			}
			os.Exit(1)
		}
	}
	must(os.WriteFile(out, []byte(fn+"("+string(content)+")"), 0o644))
}

type wikiGen struct {
	images   map[string]string // name -> type
	formulas []string
	hosts    [][]string
	outcomes []string
	convs    string
	procs    string
	maths    string
	fails    string
	maxOps   int
	drops    bool
}

func tlaSet(xs []string) string {
	if len(xs) == 0 {
		return "{}"
	}
	return `{"` + strings.Join(xs, `","`) + `"}`
}

func tlaSeq(xs []string) string {
	if len(xs) == 0 {
		return "<<>>"
	}
	return `<<"` + strings.Join(xs, `","`) + `">>`
}

func (g wikiGen) opts() TLCOpts {
	var names []string
	for n := range g.images {
		names = append(names, n)
	}
	sort.Strings(names)
	exts := "<<>>"
	for i, n := range names {
		if i == 0 {
			exts = ""
		} else {
			exts += " @@ "
		}
		exts += fmt.Sprintf("%q :> %q", n, g.images[n])
	}
	var hosts []string
	for _, h := range g.hosts {
		hosts = append(hosts, tlaSeq(h))
	}
	return TLCOpts{Spec: "WikiGen", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Emit Processed FirstSource Fails\nCHECK_DEADLOCK FALSE\n", Defs: [][2]string{
		{"KeyByHost", "TRUE"}, {"Images", tlaSet(names)}, {"Exts", exts}, {"Formulas", tlaSet(g.formulas)}, {"Hosts", "{" + strings.Join(hosts, ",") + "}"},
		{"Outcomes", tlaSet(g.outcomes)}, {"Convs", g.convs}, {"Procs", g.procs}, {"Maths", g.maths}, {"FailSets", g.fails},
		{"MaxOps", fmt.Sprint(g.maxOps)}, {"Drops", strings.ToUpper(fmt.Sprint(g.drops))}}}
}

func wikiCases(lines [][]byte) []wikiCase {
	var out []wikiCase
	for _, l := range lines {
		var cas wikiCase
		must(json.Unmarshal(l, &cas))
		out = append(out, cas)
	}
	return out
}

func (c wikiCase) sig() string {
	var ops []string
	for _, o := range c.Ops {
		ops = append(ops, o.Op+" "+o.N+"!"+strings.Join(o.Fail, "+"))
	}
	return fmt.Sprintf("%v %s conv=%v proc=%v math=%s: %s", c.Hosts, toJSON(c.Has), c.Conv, c.Proc, c.Math, strings.Join(ops, ", "))
}

func wikiJudge(c *Check, cases []wikiCase, aspects string) {
	for i := range cases {
		cases[i].Nr = i
		cases[i].Space = i%4 == 1
	}
	results := c.Run("wiki", marshalAll(cases), 60*time.Second)
	var traces [][]byte
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate("died:"+cases[i].sig(), "the process ended ("+r.Died+"): "+firstLine(r.Stderr), cases[i])
			continue
		}
		k := cases[i]
		traces = append(traces, []byte(fmt.Sprintf(`{"hosts":%s,"has":%s,"conv":%s,"proc":%v,"math":%q,"ext":%s,"events":%s}`, toJSON(k.Hosts), toJSON(k.Has), toJSON(k.Conv), k.Proc, k.Math, toJSON(k.Ext), r.Out)))
		idx = append(idx, i)
	}
	if len(traces) > 0 {
		c.Sample(json.RawMessage(traces[0]))
		c.Sample(json.RawMessage(traces[len(traces)-1]))
	}
	cfg := traceCfg + "CONSTANTS\n Aspects = " + aspects + "\n KeyByHost = "
	rej := c.Rejected("WikiTrace", cfg+"TRUE\n", nil, traces)
	if len(rej) == 0 {
		return
	}
	// Which of them are explained by description pages being cached without regard to their host?
	var again [][]byte
	for _, r := range rej {
		again = append(again, traces[r.Trace])
	}
	other := map[int]int{}
	for _, r := range c.Validate("WikiTrace", cfg+"FALSE\n", nil, again) {
		other[r.Trace] = r.Matched
	}
	for k, r := range rej {
		var tr struct{ Events []wikiEvent }
		must(json.Unmarshal(traces[r.Trace], &tr))
		cas := cases[idx[r.Trace]]
		sig := "page-cache-ignores-host"
		matched := r.Matched
		if m, bad := other[k]; bad {
			matched = max(m, r.Matched)
			sig = fmt.Sprintf("%s@%d", cas.sig(), matched)
		}
		if matched >= len(tr.Events) {
			matched = len(tr.Events) - 1
		}
		c.Violate(sig, fmt.Sprintf("%s: operation %d gave %s, which the specification does not allow", cas.sig(), matched+1, toJSON(tr.Events[matched])),
			map[string]any{"kind": "wiki", "case": cas, "trace": tr.Events})
	}
}

var wikiHosts = []string{"commons.wikimedia.org", "de.wikipedia.org", "en.wikipedia.org"}

func checkW01(c *Check) {
	c.Assumptions = []string{"hosts are wiki hosts with a subdomain, which names the directory of their files", "image operations of one process run one after the other"}
	all := []string{"none", "nofile", "own", "redir", "redirnofile"}
	noConv, noProc, noMath := "{{}}", "{FALSE}", `{"none"}`
	one := map[string]string{"a_1.jpg": "jpg"}
	var cases []wikiCase
	gen := func(g wikiGen, sim, depth int) {
		g.convs, g.procs, g.maths = noConv, noProc, noMath
		o := g.opts()
		if sim > 0 {
			o = simulated(o, sim, depth, c.Seed)
		}
		cases = append(cases, wikiCases(c.Generate(o))...)
	}
	h3 := [][]string{wikiHosts}
	var orders [][]string
	for i := range wikiHosts {
		for j := range wikiHosts {
			if i != j {
				orders = append(orders, []string{wikiHosts[i], wikiHosts[j]}, []string{wikiHosts[i], wikiHosts[j], wikiHosts[3-i-j]})
			}
		}
		orders = append(orders, []string{wikiHosts[i]})
	}
	gen(wikiGen{images: one, hosts: h3, outcomes: all, fails: `{{},{"page1"},{"file1"},{"page2"},{"file2"},{"page1","page2"},{"file1","page2"},{"page3"},{"file3"}}`, maxOps: 1}, 0, 0)
	gen(wikiGen{images: one, hosts: orders, outcomes: []string{"none", "nofile", "own", "redir"}, fails: `{{}}`, maxOps: 2, drops: true}, 0, 0)
	gen(wikiGen{images: one, hosts: [][]string{wikiHosts[:2]}, outcomes: []string{"none", "own", "redir"}, fails: `{{},{"page1"},{"file1"},{"file2"}}`, maxOps: 3, drops: true}, 0, 0)
	gen(wikiGen{images: map[string]string{"a_1.jpg": "jpg", "b.png": "png", "c_d:e:f.webp": "webp"}, hosts: h3, outcomes: []string{"none", "own", "redir"}, fails: `{{},{"page1"},{"file1"},{"file2"}}`, maxOps: 6, drops: true}, c.pick(300, 6000), 9)
	wikiJudge(c, cases, `{"reqs","ok","files"}`)
}

func checkW02(c *Check) {
	c.Assumptions = []string{"commands write their output file or fail; a failing command may leave an unfinished file"}
	types := map[string]string{"a.jpg": "jpg", "b_1.svg": "svg", "c.pdf": "pdf", "d.webp": "webp", "e.PNG": "png", "f.SVG": "svg", "g.gif": "gif"}
	cv := `SUBSET {"svg","pdf","webp"}`
	var cases []wikiCase
	host := [][]string{wikiHosts[:1]}
	for _, n := range []string{"a.jpg", "b_1.svg", "c.pdf", "d.webp", "e.PNG", "f.SVG"} {
		fails := `{{},{"conv"},{"proc"}}`
		if n == "a.jpg" || n == "e.PNG" {
			fails = `{{},{"proc"}}`
		}
		conv := cv
		if !c.thorough() {
			conv = fmt.Sprintf(`{{},{"%s"},{"svg","pdf","webp"}\{"%s"},{"svg","pdf","webp"}}`, types[n], types[n])
		}
		ops := 3
		if n == "f.SVG" && !c.thorough() {
			ops = 2
		}
		g := wikiGen{images: map[string]string{n: types[n]}, hosts: host, outcomes: []string{"own"}, convs: conv, procs: "BOOLEAN", maths: `{"none"}`, fails: fails, maxOps: ops, drops: true}
		cases = append(cases, wikiCases(c.Generate(g.opts()))...)
	}
	g := wikiGen{images: types, hosts: host, outcomes: []string{"own", "redir"}, convs: cv, procs: "BOOLEAN", maths: `{"none"}`, fails: `{{},{"conv"},{"proc"}}`, maxOps: 8, drops: true}
	cases = append(cases, wikiCases(c.Generate(simulated(g.opts(), c.pick(160, 4000), 11, c.Seed)))...)
	// several workers meet the same pictures
	g = wikiGen{images: map[string]string{"a.jpg": "jpg", "b_1.svg": "svg", "d.webp": "webp"}, hosts: host, outcomes: []string{"own"}, convs: `{{},{"svg","pdf","webp"}}`, procs: "BOOLEAN", maths: `{"none"}`, fails: `{{}}`, maxOps: c.pick(3, 4)}
	par := wikiCases(c.Generate(g.opts()))
	g.maxOps = 8
	par = append(par, wikiCases(c.Generate(simulated(g.opts(), c.pick(80, 2000), 11, c.Seed)))...)
	for i := range par {
		par[i].Par = true
	}
	wikiJudge(c, append(cases, par...), `{"cmds","ok","files"}`)
}

func checkW03(c *Check) {
	c.Assumptions = []string{"different formulas get different resource tokens"}
	g := wikiGen{hosts: [][]string{{}}, outcomes: []string{"none"}, convs: "{{}}", procs: "{FALSE}", maths: `{"none","wikimedia","template"}`, drops: true}
	var cases []wikiCase
	g.formulas, g.fails, g.maxOps = []string{"m1"}, `{{},{"check"},{"noloc"},{"svg"},{"png"},{"conv"}}`, 3
	cases = append(cases, wikiCases(c.Generate(g.opts()))...)
	g.formulas, g.fails, g.maxOps = []string{"m1", "m2", "m3", "m4", "m5", "m6", "m7"}, `{{}}`, 2
	cases = append(cases, wikiCases(c.Generate(g.opts()))...)
	g.fails, g.maxOps = `{{},{"check"},{"svg"},{"png","conv"}}`, 8
	cases = append(cases, wikiCases(c.Generate(simulated(g.opts(), c.pick(160, 4000), 11, c.Seed)))...)
	// several workers meet the same formulas
	g.formulas, g.fails, g.maxOps, g.drops = []string{"m1", "m2"}, `{{}}`, c.pick(4, 6), false
	par := wikiCases(c.Generate(g.opts()))
	for i := range par {
		par[i].Par = true
	}
	wikiJudge(c, append(cases, par...), `{"reqs","cmds","ok","out","files"}`)
}
