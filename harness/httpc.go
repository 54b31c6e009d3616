package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	w2bhttp "wiki2book/http"
	"wiki2book/util"
)

func init() {
	workers["http"] = httpWorker
	workers["httpvirtual"] = httpVirtualWorker
	checks["H01"] = checkH01
	checks["H02"] = func(c *Check) { httpHistories(c, `{"outcome","disk","again"}`) }
	checks["H03"] = func(c *Check) { httpHistories(c, `{"hit","fresh","ua","once"}`) }
}

type httpOp struct {
	Op     string   `json:"op"`
	Item   int      `json:"item"`
	C      int      `json:"c"`
	Script []string `json:"script"`
}

type httpBatch struct {
	UA    string     `json:"ua"`
	Cases [][]httpOp `json:"cases"`
}

type httpEvent struct {
	Op     string   `json:"op"`
	Item   int      `json:"item"`
	Script []string `json:"script"`
	Want   int      `json:"want"`
	N      int      `json:"n"`
	Same   bool     `json:"same"`
	Right  bool     `json:"right"`
	UA     bool     `json:"ua"`
	Waits  []int64  `json:"waits"`
	Res    string   `json:"res"`
	Fresh  bool     `json:"fresh"`
	C      int      `json:"c"`
	Disk   int      `json:"disk"`
	Err    string   `json:"err"`
}

// httpServer answers the requests of one operation (identified by its path) with the operation's script.
type httpServer struct {
	mu   sync.Mutex
	ops  map[string]*httpScript
	addr string
}

type seenRequest struct {
	method, url, body string
	header            http.Header
	at                time.Time
}

type httpScript struct {
	script []string
	body   []byte
	seen   []seenRequest
	answer []time.Time // when answer i was complete
}

func newHTTPServer() *httpServer {
	s := &httpServer{ops: map[string]*httpScript{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.addr = l.Addr().String()
	srv := &http.Server{Handler: s, ErrorLog: nil}
	srv.SetKeepAlivesEnabled(false)
	go func() { _ = srv.Serve(l) }()
	return s
}

func (s *httpServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	at := time.Now()
	body, _ := io.ReadAll(r.Body)
	s.mu.Lock()
	sc := s.ops[r.URL.Path]
	if sc == nil {
		s.mu.Unlock()
		http.NotFound(w, r)
		return
	}
	k := len(sc.seen)
	sc.seen = append(sc.seen, seenRequest{r.Method, r.URL.String(), string(body), r.Header.Clone(), at})
	sc.answer = append(sc.answer, at)
	s.mu.Unlock()
	a := "s500"
	if k < len(sc.script) {
		a = sc.script[k]
	}
	done := func() {
		s.mu.Lock()
		sc.answer[k] = time.Now()
		s.mu.Unlock()
	}
	done()
	busy := func(h string) {
		if h != "" {
			w.Header().Set("Retry-After", h)
		}
		w.WriteHeader(429)
		_, _ = w.Write([]byte("slow down"))
	}
	raw := func(text string, b []byte) {
		conn, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		_, _ = buf.WriteString(text)
		_, _ = buf.Write(b)
		_ = buf.Flush()
		_ = conn.Close()
	}
	lying := func(n int) {
		raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", len(sc.body)), sc.body[:n])
	}
	switch a {
	case "ok":
		_, _ = w.Write(sc.body)
	case "rafloat":
		busy("1.5")
	case "rahuge":
		busy("99999999999999999999")
	case "ranone":
		busy("")
	case "rabad":
		busy("soon")
	case "radate":
		busy(time.Now().Add(time.Second).UTC().Format(http.TimeFormat))
	case "apierr":
		w.Header().Set("mediawiki-api-error", "missingtitle")
		_, _ = w.Write(sc.body)
	case "neterr":
		raw("HTTP/1.1 200 OK\r\nContent-", nil)
	case "reset":
		raw("", nil)
	case "trunc0":
		lying(0)
	case "truncmid":
		lying(len(sc.body) / 2)
	case "trunclast":
		lying(len(sc.body) - 1)
	case "chunkabort":
		_, _ = w.Write(sc.body[:len(sc.body)/2])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	default:
		if seconds, ok := strings.CutPrefix(a, "ra"); ok {
			busy(seconds)
			return
		}
		code, err := strconv.Atoi(a[1:])
		must(err)
		w.WriteHeader(code)
		_, _ = w.Write(sc.body)
	}
}

// httpContent: content number c of case k; some of it larger than any copy buffer.
func httpContent(k, c int) []byte {
	line := fmt.Sprintf("content %d of case %d\n", c, k)
	if (k*7+c)%97 == 5 {
		return bytes.Repeat([]byte(line), 150000)
	}
	if (k+c)%3 == 0 {
		return bytes.Repeat([]byte(line), 3000)
	}
	return []byte(line)
}

func httpContentID(k int, b []byte) int {
	var c, kk int
	if n, _ := fmt.Sscanf(string(b[:min(len(b), 60)]), "content %d of case %d\n", &c, &kk); n == 2 && kk == k && bytes.Equal(b, httpContent(k, c)) {
		return c
	}
	return -1
}

// In memory, for workers with a simulated clock.
func newMemHTTPServer() *httpServer {
	s := &httpServer{ops: map[string]*httpScript{}, addr: "server.example"}
	serveAllHosts(s)
	return s
}

func httpWorker()        { httpWork(newHTTPServer()) }
func httpVirtualWorker() { httpWork(newMemHTTPServer()) }

func httpWork(srv *httpServer) {
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	n := 0
	workerLoop(func(in []byte) any {
		var batch httpBatch
		must(json.Unmarshal(in, &batch))
		n++
		dir := filepath.Join(wd, fmt.Sprintf("http%d", n))
		must(os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755))
		defer os.RemoveAll(dir)
		cfg := config.NewDefaultConfig()
		cfg.CacheDir = dir
		cfg.CacheEvictionStrategy = "none"
		cfg.UserAgentTemplate = batch.UA
		config.Current = cfg
		out := make([][]httpEvent, len(batch.Cases))
		var wg sync.WaitGroup
		for k := range batch.Cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out[k] = httpRunCase(srv, dir, batch.UA, n, k, batch.Cases[k])
			}()
		}
		wg.Wait()
		srv.mu.Lock()
		srv.ops = map[string]*httpScript{}
		srv.mu.Unlock()
		return out
	})
}

func httpRunCase(srv *httpServer, dir, ua string, batchNo, k int, ops []httpOp) []httpEvent {
	svc := w2bhttp.NewDefaultHttpService()
	wantUA := strings.ReplaceAll(ua, "{{VERSION}}", util.VERSION)
	evs := []httpEvent{}
	id := func(path string) int {
		b, err := os.ReadFile(path)
		if err != nil {
			return 0
		}
		return httpContentID(k, b)
	}
	for i, o := range ops {
		// two items of each case have the same name in different folders, a third one shares a folder
		folder, name := []string{"articles", "images", "images"}[o.Item%3], fmt.Sprintf("item %d %d", k, o.Item/2)
		ev := httpEvent{Op: o.Op, Item: o.Item, Script: o.Script, Want: o.C, Same: true, Right: true, UA: true, Waits: []int64{}, Res: "ok"}
		if ev.Script == nil {
			ev.Script = []string{}
		}
		file := cache.GetFilePathInCache(folder, name)
		switch o.Op {
		case "drop":
			_ = os.Remove(file)
		case "age":
			t := time.Now().Add(-time.Duration(config.Current.CacheMaxAge+60) * time.Minute)
			_ = os.Chtimes(file, t, t)
		case "older":
			t := time.Now().Add(-time.Duration(config.Current.CacheMaxAge/2) * time.Minute)
			_ = os.Chtimes(file, t, t)
		case "get", "post":
			path := fmt.Sprintf("/b%d/c%d/o%d", batchNo, k, i)
			query := "?a=b%20c&d=%26%2F"
			sc := &httpScript{script: o.Script, body: httpContent(k, o.C)}
			srv.mu.Lock()
			srv.ops[path] = sc
			srv.mu.Unlock()
			url := "http://" + srv.addr + path + query
			method, wantBody := "GET", ""
			if o.Op == "get" {
				p, fresh, err := svc.DownloadAndCache(url, folder, name)
				ev.Fresh = fresh
				if err != nil {
					ev.Res, ev.Err = "err", err.Error()
				} else {
					ev.C = id(p)
				}
			} else {
				method, wantBody = "POST", fmt.Sprintf("q=%d&r=%s", i, strings.Repeat("x", (k%3)*2000))
				resp, err := svc.PostFormEncoded(url, wantBody)
				if err != nil {
					ev.Res, ev.Err = "err", err.Error()
				} else {
					b, err := io.ReadAll(resp.Body)
					resp.Body.Close()
					if err != nil {
						ev.Res, ev.Err = "err", err.Error()
					} else {
						ev.C = httpContentID(k, b)
					}
				}
			}
			srv.mu.Lock()
			ev.N = len(sc.seen)
			for j, s := range sc.seen {
				if j > 0 {
					f := sc.seen[0]
					ev.Waits = append(ev.Waits, s.at.Sub(sc.answer[j-1]).Milliseconds())
					if s.method != f.method || s.url != f.url || s.body != f.body || toJSON(s.header) != toJSON(f.header) {
						ev.Same = false
					}
				}
				if s.method != method || s.url != path+query || s.body != wantBody || (method == "POST" && s.header.Get("Content-Type") != "application/x-www-form-urlencoded") {
					ev.Right = false
				}
				if s.header.Get("User-Agent") != wantUA {
					ev.UA = false
				}
			}
			srv.mu.Unlock()
		default:
			die("op %s", o.Op)
		}
		ev.Disk = id(file)
		evs = append(evs, ev)
	}
	return evs
}

func httpGen(items, prefixes, finals string, maxOps int, kinds string) TLCOpts {
	return TLCOpts{Spec: "HttpGen", Cfg: "INIT Init\nNEXT Next\nINVARIANTS Emit OnlySuccess\nCHECK_DEADLOCK FALSE\n",
		Defs: [][2]string{{"Items", items}, {"Prefixes", prefixes}, {"Finals", finals}, {"MaxOps", fmt.Sprint(maxOps)}, {"Kinds", kinds}}}
}

func simulated(o TLCOpts, num, depth int, seed int64) TLCOpts {
	o.Simulate, o.Depth, o.Seed = num, depth, seed
	return o
}

const allFinals = `{"ok","s404","s500","s503","s403","s400","s502","s201","s204","s206","s300","s304","s305","s399","s401","s410","s451","s599","apierr","neterr","reset","trunc0","truncmid","trunclast","chunkabort"}`

var userAgents = []string{"wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)", "{{VERSION}}/{{VERSION}}", "plain agent", "x{{VERSION}}"}

func httpJudge(c *Check, cases [][]httpOp, aspects string, batchSize int, virtual bool) {
	rnd := rand.New(rand.NewSource(c.Seed))
	rnd.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	var batches []httpBatch
	for i := 0; i < len(cases); i += batchSize {
		batches = append(batches, httpBatch{UA: userAgents[(i/batchSize)%len(userAgents)], Cases: cases[i:min(i+batchSize, len(cases))]})
	}
	var results []Result
	if virtual {
		results = c.RunVirtual("httpvirtual", marshalAll(batches), 100*time.Second)
	} else {
		results = c.Run("http", marshalAll(batches), 120*time.Second)
	}
	var traces [][]byte
	var flat []json.RawMessage
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate(fmt.Sprintf("died:http:%d", i), "the process ended ("+r.Died+") during downloads: "+firstLine(r.Stderr), batches[i])
			continue
		}
		var evs []json.RawMessage
		must(json.Unmarshal(r.Out, &evs))
		for k, e := range evs {
			flat = append(flat, e)
			traces = append(traces, []byte(`{"events":`+string(e)+`}`))
			idx = append(idx, i*batchSize+k)
		}
	}
	if len(flat) > 0 {
		c.Sample(map[string]any{"case": cases[idx[0]], "trace": flat[0]})
		k := len(flat) - 1
		c.Sample(map[string]any{"case": cases[idx[k]], "trace": flat[k]})
	}
	for _, rj := range c.Validate("HttpTrace", traceCfg+"CONSTANT Aspects = "+aspects+"\n", nil, traces) {
		var evs []httpEvent
		must(json.Unmarshal(flat[rj.Trace], &evs))
		ev := evs[rj.Matched]
		var sig []string
		for _, o := range cases[idx[rj.Trace]] {
			sig = append(sig, fmt.Sprintf("%s%d:%s", o.Op, o.Item, strings.Join(o.Script, "+")))
		}
		c.Violate(fmt.Sprintf("%s@%d", strings.Join(sig, ","), rj.Matched),
			fmt.Sprintf("operation %d of %v: %s, which the specification does not allow", rj.Matched+1, sig, toJSON(ev)),
			map[string]any{"kind": "http", "case": cases[idx[rj.Trace]], "trace": evs})
	}
}

func httpCases(lines [][]byte) [][]httpOp {
	var out [][]httpOp
	for _, l := range lines {
		var ops []httpOp
		must(json.Unmarshal(l, &ops))
		out = append(out, ops)
	}
	return out
}

func checkH01(c *Check) {
	c.Assumptions = []string{"the server's clock and the client's clock are the same; a wait may be longer than asked for", "one connection per request"}
	pre := `{<<>>,<<"ra0">>,<<"ra1">>,<<"ra2">>,<<"ranone">>,<<"rabad">>,<<"radate">>,<<"ra0","ra1">>,<<"ra1","ra0">>,<<"rabad","ra1">>,<<"ranone","ra0">>,<<"ra0","ra0","ra0">>,<<"ra0","ra0","ra0","ra0","ra0","ra0">>}`
	cases := httpCases(c.Generate(httpGen("{0}", pre, allFinals, 1, `{"get","post"}`)))
	// longer series of "too many requests"
	long := `{<<>>,<<"ra0","ra1","ra0","ra1">>,<<"ra1","ra1","ra1">>,<<"ra0","rabad","ra1">>,<<"ra1","ranone">>,<<"ra0","ra0","ra0","ra0","ra0","ra0","ra0","ra0","ra0","ra0","ra0","ra0">>}`
	cases = append(cases, httpCases(c.Generate(httpGen("{0}", long, `{"ok","s500","trunclast"}`, 1, `{"get","post"}`)))...)
	// and in histories: an earlier series has no effect on a later one
	cases = append(cases, httpCases(c.Generate(simulated(httpGen("{0,1}", `{<<>>,<<"ra0">>,<<"ra1">>,<<"ra0","ra0">>}`, `{"ok","s500","apierr"}`, 4, `{"get","post","lose"}`), c.pick(300, 3000), 8, c.Seed)))...)
	c.count("histories_real_time", len(cases))
	httpJudge(c, cases, `{"count","same","wait","outcome"}`, 100, false)

	// With a simulated clock: long waits and very long series.
	waits := `{"ra0","ra1","ra2","ra3","ra5","ra10","ra29","ra30","ra31","ra59","ra60","ra61","ra90","ra119","ra120","ra121","ra300","ra301","ra600","ra900","ra1800","ra3600","ra3601","ra7200","ra86400","ra100000","rafloat","rahuge","ranone","rabad"}`
	series := func(a string, n int) string {
		return "<<" + strings.TrimSuffix(strings.Repeat(`"`+a+`",`, n), ",") + ">>"
	}
	cases = httpCases(c.Generate(httpGen("{0}", `({<<a>> : a \in `+waits+`} \cup {<<a,b>> : a, b \in {"ra0","ra1","ra60","ra61","ra300","ra3600","ranone","rahuge"}})`, `{"ok","s500","trunclast","apierr"}`, 1, `{"get","post"}`)))
	cases = append(cases, httpCases(c.Generate(httpGen("{0}", "{"+series("ra0", 20)+","+series("ra1", 33)+","+series("ra60", 25)+","+series("ra0", 110)+","+series("ranone", 60)+"}", `{"ok","s404"}`, 1, `{"get","post"}`)))...)
	cases = append(cases, httpCases(c.Generate(simulated(httpGen("{0,1}", `{<<a,b,d>> : a, b, d \in {"ra0","ra7","ra45","ra100","ra400","ra5000","ranone"}}`, `{"ok","s500","apierr"}`, 3, `{"get","post","lose"}`), c.pick(600, 6000), 8, c.Seed)))...)
	c.count("histories_simulated_clock", len(cases))
	httpJudge(c, cases, `{"count","same","wait","outcome"}`, 50, true)
}

func httpHistories(c *Check, aspects string) {
	c.Assumptions = []string{"one connection per request", "downloads of different items run concurrently in one process; those of one item one after the other"}
	cases := httpCases(c.Generate(httpGen("{0,1}", `{<<>>}`, `{"ok","s404","apierr","trunclast"}`, 3, `{"get","lose"}`)))
	cases = append(cases, httpCases(c.Generate(httpGen("{0}", `{<<>>,<<"ra0">>}`, allFinals, 2, `{"get","lose"}`)))...)
	cases = append(cases, httpCases(c.Generate(simulated(httpGen("{0,1,2}", `{<<>>,<<"ra0">>}`, allFinals, 8, `{"get","lose"}`), c.pick(800, 8000), 12, c.Seed)))...)
	if c.thorough() {
		cases = append(cases, httpCases(c.Generate(httpGen("{0,1}", `{<<>>}`, `{"ok","s500","truncmid"}`, 4, `{"get","lose"}`)))...)
	}
	httpJudge(c, cases, aspects, 100, false)
}
