package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The built program runs as a process of its own: its network traffic goes through a proxy, its external commands are
// stand-ins, and both ask this controller, which decides when and how each request and command is answered.

// ---- certificates ----

type mitm struct {
	mu    sync.Mutex
	ca    *x509.Certificate
	key   *ecdsa.PrivateKey
	certs map[string]*tls.Certificate
	file  string
}

func newMitm(dir string) *mitm {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	must(err)
	ca, err := x509.ParseCertificate(der)
	must(err)
	m := &mitm{ca: ca, key: key, certs: map[string]*tls.Certificate{}, file: filepath.Join(dir, "ca.pem")}
	must(os.WriteFile(m.file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	return m
}

func (m *mitm) cert(host string) (*tls.Certificate, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.certs[host]; ok {
		return c, nil
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(m.certs)) + 2), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, m.ca, &m.key.PublicKey, m.key)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: m.key}
	m.certs[host] = c
	return c, nil
}

// ---- one run of the program ----

// e2eOp is a request or an external command that waits for its answer.
type e2eOp struct {
	K, N   string
	Exe    string
	Args   []string // commands
	Wd     string
	answer chan func(w http.ResponseWriter)
	Req    *http.Request
	Body   []byte
}

type e2eWorld interface {
	// classify names the step a request belongs to
	classify(r *http.Request, body []byte) (k, n string)
	// serve answers a request correctly
	serve(w http.ResponseWriter, r *http.Request, body []byte)
}

type e2eProc struct {
	world   e2eWorld
	ops     chan *e2eOp
	closing chan struct{}
	exited  chan struct{}
	cmd     *exec.Cmd
	out     *bytes.Buffer
	outMu   *sync.Mutex
	srvs    []*http.Server
}

type lockedWriter struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (l lockedWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (p *e2eProc) submit(op *e2eOp, w http.ResponseWriter) {
	op.answer = make(chan func(http.ResponseWriter), 1)
	select {
	case p.ops <- op:
	case <-p.closing:
		return
	}
	select {
	case f := <-op.answer:
		f(w)
	case <-p.closing:
		abort(w, "", nil)
	}
}

type connListener struct {
	memListener
}

// startE2E starts the program with the proxy and the control server of this run.
func startE2E(m *mitm, world e2eWorld, exe string, args []string, cwd string, env []string) *e2eProc {
	p := &e2eProc{world: world, ops: make(chan *e2eOp, 64), closing: make(chan struct{}), exited: make(chan struct{}), out: &bytes.Buffer{}, outMu: &sync.Mutex{}}
	inner := &connListener{memListener{ch: make(chan net.Conn), done: make(chan struct{})}}
	site := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		k, n := world.classify(r, body)
		p.submit(&e2eOp{K: k, N: n, Req: r, Body: body}, w)
	})}
	site.SetKeepAlivesEnabled(false) // a request on a reused connection would be repeated silently by the http client
	go func() { _ = site.Serve(inner) }()
	proxy := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method != "CONNECT" {
			w.WriteHeader(400)
			return
		}
		host := r.URL.Hostname()
		conn, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		_, _ = io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
		tc := tls.Server(conn, &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) { return m.cert(host) }, NextProtos: []string{"http/1.1"}})
		select {
		case inner.ch <- tc:
		case <-p.closing:
			_ = conn.Close()
		}
	})}
	control := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var c struct {
			K, Exe string
			Args   []string
			Wd     string
		}
		if json.NewDecoder(r.Body).Decode(&c) != nil {
			return
		}
		p.submit(&e2eOp{K: c.K, Exe: c.Exe, Args: c.Args, Wd: c.Wd}, w)
	})}
	listen := func(s *http.Server) string {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		go func() { _ = s.Serve(l) }()
		p.srvs = append(p.srvs, s)
		return l.Addr().String()
	}
	p.srvs = append(p.srvs, site)
	proxyAddr, ctlAddr := listen(proxy), listen(control)
	p.cmd = exec.Command(exe, args...)
	p.cmd.Dir = cwd
	p.cmd.Env = append([]string{"HTTPS_PROXY=http://" + proxyAddr, "HTTP_PROXY=http://" + proxyAddr, "SSL_CERT_FILE=" + m.file, "SSL_CERT_DIR=/nonexistent",
		"VH_CTL=" + ctlAddr, "PATH=/usr/bin:/bin", "LANG=C.UTF-8"}, env...)
	w := lockedWriter{p.outMu, p.out}
	p.cmd.Stdout, p.cmd.Stderr = w, w
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd.WaitDelay = 300 * time.Millisecond
	must(p.cmd.Start())
	go func() { _ = p.cmd.Wait(); close(p.exited) }()
	return p
}

func (p *e2eProc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.exited
	_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

func (p *e2eProc) stop() {
	select {
	case <-p.exited:
		_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	default:
		p.kill()
	}
	close(p.closing)
	for _, s := range p.srvs {
		_ = s.Close()
	}
}

func (p *e2eProc) output() string {
	p.outMu.Lock()
	defer p.outMu.Unlock()
	return p.out.String()
}

// limited runs a program that can not make files larger than a number of bytes.
func limited(args []string) {
	n, err := strconv.ParseUint(args[0], 10, 64)
	must(err)
	must(syscall.Setrlimit(1, &syscall.Rlimit{Cur: n, Max: n})) // RLIMIT_FSIZE
	must(syscall.Exec(args[1], args[1:], os.Environ()))
}

// fakeTool is what an external command does: ask the controller and exit as told. The controller reads and writes the
// files itself.
func fakeTool(kind string, args []string) {
	wd, _ := os.Getwd()
	b, err := json.Marshal(map[string]any{"K": kind, "Exe": os.Args[0], "Args": args, "Wd": wd})
	must(err)
	resp, err := (&http.Client{Transport: &http.Transport{Proxy: nil}}).Post("http://"+os.Getenv("VH_CTL")+"/", "application/json", bytes.NewReader(b))
	if err != nil {
		os.Exit(7)
	}
	if resp.StatusCode == 200 {
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, kind, "failed")
	os.Exit(1)
}

// ---- the world of the Run specification ----

type runStep struct {
	E    string   `json:"e"`
	K    string   `json:"k"`
	N    string   `json:"n"`
	Ok   bool     `json:"ok"`
	W    int      `json:"w"`
	Arts []string `json:"arts"`
}

type runItem struct {
	K  string `json:"k"`
	N  string `json:"n"`
	As string `json:"as"`
}

type runCase struct {
	Content map[string][]runItem `json:"content"`
	Conv    []string             `json:"conv"`
	Proc    bool                 `json:"proc"`
	Math    string               `json:"math"`
	Hist    []runStep            `json:"hist"`
	Seed    int64                `json:"seed"`
	Mode    string               `json:"mode"`    // project, article, standalone
	InCache bool                 `json:"incache"` // the program runs inside its cache directory
	Limit   int                  `json:"limit"`   // instead of being killed, the program can not make files larger than that
	MaxAge  int64                `json:"maxage"`  // cache-max-age
}

type runEvent struct {
	E        string     `json:"e"`
	K        string     `json:"k"`
	N        string     `json:"n"`
	Ok       bool       `json:"ok"`
	Msg      bool       `json:"msg"`
	Arts     []string   `json:"arts"`
	Chapters [][]string `json:"chapters"`
	Info     string     `json:"info"`
}

var runArticleNames = map[string]string{"a1": "plain", "a2": "Beta/Two & <3>", "a3": "Gämma: \"3\"?", "a4": "100%25 Delta", "a5": "Plain"}
var runImageNames = map[string]string{"ia": "Im a.jpg", "ib": "B&ü.svg", "ic": "C+c (1).webp", "id": "D'd%41.pdf", "ie": "E* \"e\".PNG", "if": "F?f.SVG", "ig": "Im A.jpg", "ih": "Im a.png"}
var runImageExt = map[string]string{"ia": "jpg", "ib": "svg", "ic": "webp", "id": "pdf", "ie": "png", "if": "svg", "ig": "jpg", "ih": "png"}
var runMath = map[string]string{"ma": `\frac{a}{b} + c`, "mb": `x < y \& z`, "mc": "\\text{ä}\n+1"}

func rev(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[v] = k
	}
	return r
}

var runArticleIDs, runImageIDs, runMathIDs = rev(runArticleNames), rev(runImageNames), rev(runMath)

type runWorld struct {
	cas *runCase
	seq int
}

func (x *runWorld) render(items []runItem) string {
	var b strings.Builder
	for _, it := range items {
		switch it.K {
		case "text":
			fmt.Fprintf(&b, "Text zq%sqz here.\n\n", it.N)
		case "tmpl":
			fmt.Fprintf(&b, "Before {{Tpl %s}} after.\n\n", it.N)
		case "math":
			fmt.Fprintf(&b, "Formula <math>%s</math> here.\n\n", runMath[it.N])
		case "img":
			n := runImageNames[it.N]
			switch it.As {
			case "thumb":
				fmt.Fprintf(&b, "[[File:%s|thumb|A caption]]\n\n", n)
			case "inline":
				fmt.Fprintf(&b, "A line [[File:%s|20x10px]] with a picture.\n\n", n)
			case "gallery":
				fmt.Fprintf(&b, "<gallery>\nFile:%s|In a gallery\n</gallery>\n\n", n)
			case "map":
				fmt.Fprintf(&b, "<imagemap>\nFile:%s|thumb|A map\n\nrect 1 2 3 4 [[Place]]\n</imagemap>\n\n", n)
			}
		}
	}
	return b.String()
}

var runTemplates = map[string][]runItem{"tt": {{"text", "ttx", ""}}, "ti": {{"text", "tix", ""}, {"img", "ia", "thumb"}}, "tm": {{"math", "ma", ""}, {"text", "tmx", ""}}, "te": {}}

func (x *runWorld) classify(r *http.Request, body []byte) (string, string) {
	q := r.URL.Query()
	host := r.Host
	switch {
	case host == "en.wikipedia.org" && q.Get("action") == "parse":
		if id, ok := runArticleIDs[strings.ReplaceAll(q.Get("page"), "_", " ")]; ok {
			return "page", id
		}
	case host == "en.wikipedia.org" && q.Get("action") == "expandtemplates":
		return "tmpl", strings.TrimSuffix(strings.TrimPrefix(q.Get("text"), "{{Tpl "), "}}")
	case host == "commons.wikimedia.org" && q.Get("action") == "parse":
		if id, ok := runImageIDs[strings.ReplaceAll(strings.TrimPrefix(q.Get("page"), "File:"), "_", " ")]; ok {
			return "ipage", id
		}
	case host == "upload.wikimedia.org":
		parts := strings.Split(strings.TrimPrefix(r.URL.EscapedPath(), "/"), "/")
		if len(parts) == 5 {
			n, _ := url.PathUnescape(parts[4])
			sum := fmt.Sprintf("%x", md5.Sum([]byte(n)))
			if id, ok := runImageIDs[strings.ReplaceAll(n, "_", " ")]; ok && parts[2] == sum[:1] && parts[3] == sum[:2] {
				return "ifile", id
			}
		}
	case host == "wikimedia.org":
		p := strings.TrimPrefix(r.URL.Path, "/api/rest_v1/media/math")
		if p == "/check/tex" {
			v, err := url.ParseQuery(string(body))
			t := strings.TrimSuffix(strings.TrimPrefix(v.Get("q"), `{\displaystyle `), "}")
			if id, ok := runMathIDs[t]; ok && err == nil && r.Method == "POST" {
				return "check", id
			}
		}
		for _, k := range []string{"svg", "png"} {
			if strings.HasPrefix(p, "/render/"+k+"/tok_") {
				return k, strings.TrimPrefix(p, "/render/"+k+"/tok_")
			}
		}
	}
	return "unknown", trunc(r.Method+" "+host+r.URL.String()+" "+string(body), 200)
}

func (x *runWorld) serve(w http.ResponseWriter, r *http.Request, body []byte) {
	k, n := x.classify(r, body)
	send := func(v any) { b, _ := json.Marshal(v); _, _ = w.Write(b) }
	switch k {
	case "page":
		items, ok := x.cas.Content[n]
		if !ok {
			w.WriteHeader(404)
			return
		}
		send(map[string]any{"parse": map[string]any{"title": runArticleNames[n], "wikitext": map[string]string{"*": x.render(items)}}})
	case "tmpl":
		items, ok := runTemplates[n]
		if !ok {
			w.WriteHeader(404)
			return
		}
		send(map[string]any{"expandtemplates": map[string]string{"wikitext": x.render(items)}})
	case "ipage":
		send(map[string]any{"parse": map[string]any{"title": "File:" + runImageNames[n], "wikitext": map[string]string{"*": "a page"}}})
	case "ifile":
		_, _ = io.WriteString(w, "file("+n+")")
	case "check":
		w.Header().Set("x-resource-location", "tok_"+n)
		send(map[string]any{"success": true})
	case "svg":
		_, _ = io.WriteString(w, `<svg xmlns="http://www.w3.org/2000/svg" width="2ex" height="3ex" style="vertical-align: -1ex;"><!--svg(`+n+`)--></svg>`)
	case "png":
		_, _ = io.WriteString(w, "png("+n+")")
	default:
		w.WriteHeader(404)
	}
}

var reComment = regexp.MustCompile(`<!--(.*)-->`)

// termOf: the history of a picture's content
func termOf(b []byte) string {
	if m := reComment.FindSubmatch(b); m != nil {
		return string(m[1])
	}
	s := string(b)
	if i := strings.LastIndexAny(s, "\n"); i >= 0 {
		return "garbage " + trunc(s, 60)
	}
	return trunc(s, 80)
}

var reImgID = regexp.MustCompile(`\((\w+)\)+$`)

// command step: kind and item, from the content of its input file
func (x *runWorld) command(op *e2eOp) (k, n, in, out string) {
	if len(op.Args) != 3 {
		return "unknown", strings.Join(append([]string{op.K}, op.Args...), " "), "", ""
	}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(op.Wd, p)
	}
	in, out = abs(op.Args[1]), abs(op.Args[2])
	b, err := os.ReadFile(in)
	if err != nil {
		return "unknown", "input missing: " + op.Args[1], in, out
	}
	t := termOf(b)
	if m := reImgID.FindStringSubmatch(t); m != nil {
		n = m[1]
	} else {
		n = "? " + t
	}
	switch op.Args[0] {
	case "svg", "pdf", "webp":
		k = "conv"
	case "math":
		k = "mconv"
	case "proc":
		k = "proc"
	default:
		k = "unknown"
	}
	return
}

func (x *runWorld) convert(op *e2eOp) (in, out, content string) {
	k, _, in, out := x.command(op)
	b, _ := os.ReadFile(in)
	f := map[string]string{"conv": "conv" + op.Args[0], "mconv": "mconv", "proc": "proc"}[k]
	return in, out, f + "(" + termOf(b) + ")"
}

var rePandocValue = map[string]string{"-f": "from", "--from": "from", "-r": "from", "-t": "to", "--to": "to", "-w": "to", "-o": "output", "--output": "output", "-M": "metadata", "--metadata": "metadata",
	"--toc-depth": "toc-depth", "--data-dir": "data-dir", "-c": "css", "--css": "css", "--epub-cover-image": "cover", "--epub-embed-font": "font"}

type pandocCall struct {
	Opts    map[string][]string
	Toc     bool
	Sources []string
	Other   []string
}

func parsePandoc(args []string) pandocCall {
	c := pandocCall{Opts: map[string][]string{}}
	for i := 0; i < len(args); i++ {
		a := args[i]
		name, val, eq := strings.Cut(a, "=")
		switch {
		case a == "--toc" || a == "--table-of-contents":
			c.Toc = true
		case strings.HasPrefix(a, "-") && rePandocValue[a] != "" && i+1 < len(args):
			i++
			c.Opts[rePandocValue[a]] = append(c.Opts[rePandocValue[a]], args[i])
		case strings.HasPrefix(a, "--") && eq && rePandocValue[name] != "":
			c.Opts[rePandocValue[name]] = append(c.Opts[rePandocValue[name]], val)
		case strings.HasPrefix(a, "-"):
			c.Other = append(c.Other, a)
		default:
			c.Sources = append(c.Sources, a)
		}
	}
	return c
}

var reChapter = regexp.MustCompile(`(?s)<h1[^>]*>(.*?)</h1>|zq(\w+?)qz|<img\b[^>]*?\bsrc\s*=\s*"([^"]*)"`)

// chapterOf reads what a chapter shows: title, texts and the contents of its pictures.
func chapterOf(file, cwd, cacheDir string) []string {
	out := []string{}
	if file == "" {
		return []string{"NO FILE"}
	}
	if !filepath.IsAbs(file) {
		file = filepath.Join(cwd, file)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return []string{"NO FILE " + filepath.Base(file)}
	}
	for _, m := range reChapter.FindAllStringSubmatch(string(b), -1) {
		switch {
		case m[2] != "":
			out = append(out, m[2])
		case m[3] != "":
			src, err := url.PathUnescape(html.UnescapeString(m[3]))
			p := filepath.Join(cwd, src)
			if err != nil || filepath.IsAbs(src) || strings.Contains(src, "://") {
				out = append(out, "BAD REFERENCE "+m[3])
			} else if !strings.HasPrefix(p, cacheDir+"/") {
				out = append(out, "OUTSIDE "+m[3])
			} else if b, err := os.ReadFile(p); err != nil {
				out = append(out, "MISSING "+m[3])
			} else {
				out = append(out, termOf(b))
			}
		default:
			t := html.UnescapeString(m[1])
			if id, ok := runArticleIDs[m[1]]; ok {
				t = id
			} else if id, ok := runArticleIDs[t]; ok {
				t = id
			}
			out = append(out, "title "+t)
		}
	}
	return out
}

type runOutcome struct {
	Content  map[string][]runItem `json:"content"`
	Conv     []string             `json:"conv"`
	Proc     bool                 `json:"proc"`
	Math     string               `json:"math"`
	Events   []runEvent           `json:"events"`
	Diverged int                  `json:"diverged"`
	Tail     string               `json:"tail"`
}

func e2eWorker() {
	wd, err := os.Getwd()
	must(err)
	m := newMitm(wd)
	n := 0
	workerLoop(func(in []byte) any {
		var cas runCase
		must(json.Unmarshal(in, &cas))
		n++
		dir := filepath.Join(wd, fmt.Sprintf("e2e%d", n))
		must(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(dir)
		return runHistory(m, dir, &cas)
	})
}

func toolLinks(dir string) (pandoc, conv string) {
	exe, err := os.Executable()
	must(err)
	pandoc, conv = filepath.Join(dir, "fakepandoc"), filepath.Join(dir, "fakeconv")
	must(os.Symlink(exe, pandoc))
	must(os.Symlink(exe, conv))
	return
}

func wiki2book() string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), "wiki2book") }

// runHistory replays the runs of a history on the program and records what happens.
func runHistory(m *mitm, dir string, cas *runCase) any {
	rnd := mrand.New(mrand.NewSource(cas.Seed))
	out := &runOutcome{Content: cas.Content, Conv: cas.Conv, Proc: cas.Proc, Math: cas.Math, Events: []runEvent{}}
	if out.Conv == nil {
		out.Conv = []string{}
	}
	pandoc, conv := toolLinks(dir)
	cacheDir := filepath.Join(dir, "the cache")
	must(os.MkdirAll(cacheDir, 0o755))
	cwd := filepath.Join(dir, "cwd")
	must(os.MkdirAll(cwd, 0o755))
	if cas.InCache {
		cwd = cacheDir
	}
	cmdFor := func(kind string) string {
		for _, t := range cas.Conv {
			if t == kind {
				return conv + " " + kind + " {INPUT} {OUTPUT}"
			}
		}
		return ""
	}
	cfg := map[string]any{"cache-dir": cacheDir, "pandoc-executable": pandoc, "wikipedia-image-article-hosts": []string{"commons.wikimedia.org"}, "ignored-media-types": []string{"gif"},
		"command-template-svg-to-png": cmdFor("svg"), "command-template-pdf-to-png": cmdFor("pdf"), "command-template-webp-to-png": cmdFor("webp"),
		"command-template-math-svg-to-png": conv + " math {INPUT} {OUTPUT}", "math-converter": cas.Math, "command-template-image-processing": ""}
	if cas.Proc {
		cfg["command-template-image-processing"] = conv + " proc {INPUT} {OUTPUT}"
	}
	if cas.MaxAge != 0 {
		cfg["cache-max-age"] = cas.MaxAge
	}
	cfgFile := filepath.Join(dir, "config.json")
	must(os.WriteFile(cfgFile, []byte(toJSON(cfg)), 0o644))
	world := &runWorld{cas: cas}
	bookFile := filepath.Join(dir, "out", "book.epub")
	for i := 0; i < len(cas.Hist); {
		if cas.Hist[i].E != "start" {
			i++
			continue
		}
		st := cas.Hist[i]
		j := i + 1
		for j < len(cas.Hist) && cas.Hist[j].E != "start" {
			j++
		}
		plan := cas.Hist[i+1 : j]
		i = j
		names := []string{}
		for _, a := range st.Arts {
			names = append(names, runArticleNames[a])
		}
		projFile := filepath.Join(cwd, "project.json")
		must(os.WriteFile(projFile, []byte(toJSON(map[string]any{"metadata": map[string]string{"title": "T"}, "output-file": bookFile, "articles": names})), 0o644))
		args := []string{"-c", cfgFile, "--worker-threads", fmt.Sprint(st.W), "project", projFile}
		if cas.Mode == "article" {
			args = []string{"-c", cfgFile, "-o", bookFile, "article", names[0]}
			st.Arts = st.Arts[:1]
		}
		if len(st.Arts) == 0 {
			st.Arts = []string{}
		}
		out.Events = append(out.Events, runEvent{E: "start", Arts: st.Arts, Chapters: [][]string{}})
		exe, limited := wiki2book(), false
		if cas.Limit > 0 {
			for k, s := range plan {
				if s.E == "kill" {
					self, err := os.Executable()
					must(err)
					exe, args, limited = filepath.Join(dir, "vhlimit"), append([]string{fmt.Sprint(cas.Limit), exe}, args...), true
					_ = os.Symlink(self, exe)
					plan = plan[:k:k]
					break
				}
			}
		}
		p := startE2E(m, world, exe, args, cwd, []string{"HOME=" + dir, "XDG_CACHE_HOME=" + filepath.Join(dir, "xdg")})
		tail, div := control(p, world, cacheDir, plan, rnd, out)
		p.stop()
		if e := &out.Events[len(out.Events)-1]; limited && e.E == "exit" && !e.Ok {
			*e = ev("kill")
			e.Info = "in the midst of writing a file"
		}
		out.Diverged += div
		out.Tail = tail
		if out.Events[len(out.Events)-1].E == "hang" {
			break
		}
	}
	return out
}

func ev(e string) runEvent { return runEvent{E: e, Arts: []string{}, Chapters: [][]string{}} }

// control answers the requests and commands of one run in the order of the plan.
func control(p *e2eProc, world *runWorld, cacheDir string, plan []runStep, rnd *mrand.Rand, out *runOutcome) (string, int) {
	var open []*e2eOp
	log := func(e runEvent) { out.Events = append(out.Events, e) }
	diverged := 0
	done := map[string]bool{}
	free := false
	deadline := time.Now().Add(25 * time.Second)
	arrive := func(op *e2eOp) {
		e := ev("begin")
		switch {
		case op.Req != nil:
		case op.K == "fakepandoc":
			c := parsePandoc(op.Args)
			e = ev("book")
			for _, s := range c.Sources {
				e.Chapters = append(e.Chapters, chapterOf(s, op.Wd, cacheDir))
			}
			op.K = "book"
			log(e)
			open = append(open, op)
			return
		default:
			op.K, op.N, _, _ = world.command(op)
		}
		e.K, e.N = op.K, op.N
		log(e)
		open = append(open, op)
	}
	release := func(i int, ok bool) {
		op := open[i]
		open = append(open[:i:i], open[i+1:]...)
		e := ev("end")
		e.K, e.N, e.Ok = op.K, op.N, ok
		if op.K == "book" {
			e.E = "booked"
		}
		if op.K == "unknown" {
			ok, e.Ok = false, false
		}
		if ok {
			done[op.K+":"+op.N] = true
		}
		kind := rnd.Intn(6)
		switch {
		case op.K == "book":
			if ok {
				c := parsePandoc(op.Args)
				for _, o := range c.Opts["output"] {
					_ = os.WriteFile(o, []byte("book"), 0o644)
				}
			}
			e.Info = "exit status"
			log(e)
			op.answer <- func(w http.ResponseWriter) {
				if !ok {
					w.WriteHeader(500)
				}
			}
		case op.Req == nil: // a command: its result is written before it is answered
			if op.K != "unknown" {
				_, o, content := world.convert(op)
				if ok {
					_ = os.WriteFile(o, []byte(content), 0o644)
				} else if kind%2 == 0 {
					_ = os.WriteFile(o, []byte("unfinished"), 0o644)
				}
			}
			log(e)
			op.answer <- func(w http.ResponseWriter) {
				if !ok {
					w.WriteHeader(500)
				}
			}
		case ok:
			log(e)
			op.answer <- func(w http.ResponseWriter) { world.serve(w, op.Req, op.Body) }
		default:
			e.Info = fmt.Sprint("failure kind ", kind)
			log(e)
			op.answer <- func(w http.ResponseWriter) { failRequest(w, world, op, kind) }
		}
	}
	find := func(k, n string) int {
		for i, op := range open {
			if op.K == k && op.N == n {
				return i
			}
		}
		return -1
	}
	// wait for something to happen; false if the process has ended
	wait := func(d time.Duration) bool {
		if time.Now().After(deadline) {
			return false
		}
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case op := <-p.ops:
			arrive(op)
		case <-p.exited:
			return false
		case <-t.C:
		}
		return true
	}
	for {
		if time.Now().After(deadline) {
			log(ev("hang"))
			return tail(p.output(), 600), diverged
		}
		select {
		case <-p.exited:
			// all of its requests and commands have been received or refused
			for {
				select {
				case op := <-p.ops:
					arrive(op)
					continue
				default:
				}
				break
			}
			e := ev("exit")
			text := p.output()
			e.Ok = p.cmd.ProcessState.Success()
			e.Msg = strings.Contains(text, "Successfully created")
			if !e.Ok || !e.Msg {
				e.Info = trunc(tail(text, 300), 300)
			}
			log(e)
			return tail(text, 600), diverged
		default:
		}
		if !free && len(plan) > 0 {
			s := plan[0]
			switch s.E {
			case "end", "book":
				k := s.K
				if s.E == "book" {
					k = "book"
				}
				i := -1
				again := done[k+":"+s.N] // another worker may or may not have asked for it, too
				limit := 400 * time.Millisecond
				if again {
					limit = 25 * time.Millisecond
				}
				until := time.Now().Add(limit)
				for i = find(k, s.N); i < 0 && time.Now().Before(until) && wait(5*time.Millisecond); i = find(k, s.N) {
					for j, op := range open {
						if done[op.K+":"+op.N] && !(op.K == k && op.N == s.N) {
							release(j, true)
							break
						}
					}
				}
				if i < 0 && again {
					plan = plan[1:]
				} else if i >= 0 {
					release(i, s.Ok)
					plan = plan[1:]
				} else {
					free = true
					diverged++
					if os.Getenv("VERIF_DIVERGE") != "" {
						have := ""
						for _, o := range open {
							have += " " + o.K + ":" + o.N
						}
						f, _ := os.OpenFile(os.Getenv("VERIF_DIVERGE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
						fmt.Fprintf(f, "want %s:%s have%s | %s\n", k, s.N, have, toJSON(out.Events))
						f.Close()
					}
				}
			case "kill":
				until := time.Now().Add(time.Duration(rnd.Intn(12)) * time.Millisecond)
				for time.Now().Before(until) && wait(2*time.Millisecond) {
				}
				for len(open) > 0 && rnd.Intn(3) == 0 {
					i := rnd.Intn(len(open))
					op := open[i]
					switch {
					case op.K == "unknown" || op.K == "book":
					case op.Req == nil && rnd.Intn(2) == 0: // killed while the command writes
						_, o, _ := world.convert(op)
						_ = os.WriteFile(o, []byte("unfinished"), 0o644)
					case op.Req != nil && rnd.Intn(2) == 0: // killed while the answer is sent
						open = append(open[:i:i], open[i+1:]...)
						e := ev("end") // it may notice before it is killed
						e.K, e.N, e.Info = op.K, op.N, "breaks off"
						log(e)
						op.answer <- func(w http.ResponseWriter) { failRequest(w, world, op, 3) }
						time.Sleep(time.Duration(rnd.Intn(3000)) * time.Microsecond)
					default: // killed just after the answer
						release(i, true)
						time.Sleep(time.Duration(rnd.Intn(3000)) * time.Microsecond)
						continue
					}
					break
				}
				select {
				case <-p.exited:
					continue // it has ended before
				default:
				}
				p.kill()
				for {
					select {
					case op := <-p.ops:
						arrive(op)
						continue
					default:
					}
					break
				}
				log(ev("kill"))
				return tail(p.output(), 600), diverged
			case "exit":
				until := time.Now().Add(500 * time.Millisecond)
				for time.Now().Before(until) && wait(20*time.Millisecond) {
				}
				select {
				case <-p.exited:
				default:
					free = true
					diverged++
				}
			default:
				plan = plan[1:]
			}
			continue
		}
		if len(open) > 0 {
			release(0, true)
			continue
		}
		wait(50 * time.Millisecond)
	}
}

// failRequest: the ways in which a request can fail
func failRequest(w http.ResponseWriter, world e2eWorld, op *e2eOp, kind int) {
	rec := &recorder{h: http.Header{}}
	world.serve(rec, op.Req, op.Body)
	switch kind {
	case 0:
		w.WriteHeader(404)
		_, _ = io.WriteString(w, "not found")
	case 1:
		w.WriteHeader(500)
		_, _ = w.Write(rec.b.Bytes())
	case 2:
		w.Header().Set("mediawiki-api-error", "some-error")
		_, _ = w.Write(rec.b.Bytes())
	case 3, 4: // breaks off
		b := rec.b.Bytes()
		half := b[:len(b)/2]
		if op.K == "check" { // nobody reads this body
			abort(w, "", nil)
			return
		}
		abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\nContent-Type: application/json\r\n\r\n", len(b)), half)
	default:
		abort(w, "", nil)
	}
}

type recorder struct {
	h    http.Header
	b    bytes.Buffer
	code int
}

func (r *recorder) Header() http.Header         { return r.h }
func (r *recorder) Write(p []byte) (int, error) { return r.b.Write(p) }
func (r *recorder) WriteHeader(c int)           { r.code = c }

func init() {
	workers["e2e"] = e2eWorker
	for _, id := range []string{"B01", "B02", "B03", "B04", "B05"} {
		checks[id] = func(c *Check) { checkBook(c) }
	}
}

type bookPlan struct {
	names             []string
	items             string
	maxItems, maxArts int
	minArts           int
	convs, procs      string
	maths             string
	workers           string
	faults            int
	kills, bookFaults bool
	same              bool
	faultAt           string
	runs              int
	quick, thorough   int
	depth             int
	mode              string
	inCache           bool
}

func (b bookPlan) opts() TLCOpts {
	boolean := func(x bool) string { return strings.ToUpper(fmt.Sprint(x)) }
	var q []string
	for _, n := range b.names {
		q = append(q, n)
	}
	return TLCOpts{Spec: "RunGen", Cfg: "INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Assemblable\nINVARIANT Allowed\nINVARIANT Once\nCHECK_DEADLOCK FALSE\n",
		Defs: [][2]string{{"ArticleNames", tlaSeq(q)}, {"Items", b.items}, {"MaxItems", fmt.Sprint(b.maxItems)}, {"MaxArts", fmt.Sprint(b.maxArts)}, {"MinArts", fmt.Sprint(b.minArts)},
			{"Convs", b.convs}, {"Procs", b.procs}, {"Maths", b.maths}, {"WorkerCounts", b.workers}, {"Faults", fmt.Sprint(b.faults)}, {"Kills", boolean(b.kills)}, {"BookFaults", boolean(b.bookFaults)},
			{"SameArts", boolean(b.same)}, {"FaultAt", b.faultAt}, {"MaxWorkers", "8"}, {"MaxRuns", fmt.Sprint(b.runs)}, {"Locks", "TRUE"}, {"Eager", "TRUE"}, {"Leftovers", "TRUE"}}}
}

func bookPlans(prop string) []bookPlan {
	texts := `{Txt("x1"), Txt("x2"), Txt("x3"), Tmpl("tt"), Tmpl("te")}`
	pics := `{Txt("x1"), Tmpl("ti"), Tmpl("tm"), Mth("ma"), Mth("mb"), Mth("mc")} \cup {Img(n, as) : n \in DOMAIN ImageExts, as \in {"thumb", "inline", "gallery", "map"}}`
	few := `{Txt("x1"), Tmpl("tt"), Tmpl("ti"), Img("ia", "thumb"), Img("ib", "inline"), Img("ic", "gallery"), Mth("ma")}`
	all, some := `SUBSET {"svg", "pdf", "webp"}`, `{{}, {"svg"}, {"svg", "pdf", "webp"}}`
	maths := `{"none", "wikimedia", "template"}`
	five := []string{"a1", "a2", "a3", "a4", "a5"}
	base := bookPlan{names: five, items: few, maxItems: 2, maxArts: 4, minArts: 1, convs: some, procs: "BOOLEAN", maths: maths, workers: "{1, 2, 3, 5}", faultAt: "{1000}", runs: 1, depth: 400}
	with := func(f func(b *bookPlan)) bookPlan { b := base; f(&b); return b }
	switch prop {
	case "B01":
		return []bookPlan{
			with(func(b *bookPlan) {
				b.items, b.maxItems, b.maxArts, b.workers, b.quick, b.thorough = texts, 3, 7, "{1, 2, 3, 5, 8}", 320, 6000
			}),
			with(func(b *bookPlan) {
				b.items, b.maxItems, b.minArts, b.maxArts, b.quick, b.thorough, b.inCache = texts, 2, 3, 5, 24, 300, true
				b.runs = 2
			}),
			with(func(b *bookPlan) {
				b.items, b.maxItems, b.maxArts, b.quick, b.thorough, b.mode = texts, 3, 1, 24, 200, "article"
			}),
		}
	case "B02":
		return []bookPlan{
			with(func(b *bookPlan) {
				b.faults, b.bookFaults, b.faultAt, b.quick, b.thorough = 1, true, "0..14", 360, 8000
			}),
			with(func(b *bookPlan) {
				b.faults, b.faultAt, b.maxArts, b.quick, b.thorough, b.mode = 1, "0..6", 1, 40, 400, "article"
				b.bookFaults = true
			}),
		}
	case "B03":
		return []bookPlan{
			with(func(b *bookPlan) {
				b.items, b.maxItems, b.maxArts, b.convs, b.quick, b.thorough = pics, 5, 3, all, 300, 6000
			}),
			with(func(b *bookPlan) {
				b.items, b.maxItems, b.maxArts, b.convs, b.quick, b.thorough, b.mode = pics, 6, 1, all, 40, 400, "article"
			}),
		}
	case "B04":
		return []bookPlan{
			with(func(b *bookPlan) {
				b.faults, b.kills, b.faultAt, b.runs, b.same, b.quick, b.thorough = 1, true, "0..14", 2, true, 220, 5000
			}),
			with(func(b *bookPlan) {
				b.faults, b.kills, b.faultAt, b.runs, b.same, b.quick, b.thorough = 2, true, "0..8", 3, true, 80, 2000
			}),
			with(func(b *bookPlan) {
				b.faults, b.kills, b.faultAt, b.runs, b.same, b.quick, b.thorough, b.inCache = 1, true, "0..14", 2, true, 150, 2000, true
			}),
		}
	case "B05":
		return []bookPlan{
			with(func(b *bookPlan) { b.runs, b.same, b.quick, b.thorough = 2, true, 160, 3000 }),
			with(func(b *bookPlan) { b.runs, b.same, b.quick, b.thorough = 3, false, 100, 2000 }),
		}
	}
	return nil
}

func checkBook(c *Check) {
	c.Assumptions = []string{"the cache is large enough for a run (nothing is evicted while it goes on)", "external commands are stand-ins that write exactly the files they are told to; pandoc itself is not run", "one image source host"}
	// the design alone: every interleaving of two workers, every fault, two runs on the same cache
	d := bookPlan{names: []string{"a1", "a2"}, items: `{Txt("x1"), Img("ib", "thumb"), Mth("ma")}`, maxItems: 1, maxArts: 2, minArts: 1, convs: `{{"svg"}}`, procs: "{TRUE}", maths: `{"template"}`,
		workers: "{2}", faults: 1, kills: true, bookFaults: true, same: true, faultAt: "{0, 2, 4, 6}", runs: 2}
	if c.Tier == "thorough" {
		d.maxItems, d.faultAt, d.workers = 2, "0..12", "{1, 2, 3}"
	}
	o := d.opts()
	o.Cfg = "INIT Init\nNEXT Next\nVIEW DesignView\nINVARIANT Assemblable\nINVARIANT Allowed\nINVARIANT Once\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n"
	for i := range o.Defs {
		if o.Defs[i][0] == "Eager" {
			o.Defs[i][1] = "FALSE"
		}
	}
	c.TLC(o)
	var cases []runCase
	for i, b := range bookPlans(c.Prop) {
		n := c.pick(b.quick, b.thorough)
		var got []runCase
		for _, l := range c.Generate(simulated(b.opts(), n, b.depth, c.Seed+int64(i)*1000)) {
			var cas runCase
			must(json.Unmarshal(l, &cas))
			cas.Mode, cas.InCache = b.mode, b.inCache
			got = append(got, cas)
		}
		if len(got) > n {
			got = got[:n]
		}
		cases = append(cases, got...)
	}
	for i := range cases {
		cases[i].Seed = c.Seed*100003 + int64(i)
		cases[i].MaxAge = []int64{0, 200000000, 0, 9223372036854775807}[i%4]
		if c.Prop == "B04" && (i%3 == 0 || cases[i].InCache && i%4 != 0) {
			cases[i].Limit = 1 + int(cases[i].Seed*7919%520)
		}
	}
	c.count("histories", len(cases))
	results := c.Run("e2e", marshalAll(cases), 120*time.Second)
	var traces [][]byte
	var idx []int
	kinds := map[string]int{}
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			die("the controller ended (%s): %s", r.Died, r.Stderr)
		}
		var o runOutcome
		must(json.Unmarshal(r.Out, &o))
		c.count("diverged_schedules", o.Diverged)
		for _, e := range o.Events {
			kinds[e.E]++
			if e.E == "end" && !e.Ok {
				kinds["failed "+e.K]++
			}
		}
		traces = append(traces, r.Out)
		idx = append(idx, i)
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.count("events "+k, kinds[k])
	}
	if len(traces) > 0 {
		c.Sample(json.RawMessage(traces[0]))
	}
	known := map[int]bool{}
	rejected := c.Rejected("BookTrace", traceCfg+"CONSTANT Leftovers = FALSE\n", nil, traces)
	if len(rejected) > 0 {
		var again [][]byte
		for i, rj := range rejected {
			again = append(again, traces[rj.Trace])
			known[i] = true
		}
		for _, rj := range c.Validate("BookTrace", traceCfg+"CONSTANT Leftovers = TRUE\n", nil, again) {
			rejected[rj.Trace].Matched, known[rj.Trace] = rj.Matched, false
		}
	}
	for i, rj := range rejected {
		var o runOutcome
		must(json.Unmarshal(traces[rj.Trace], &o))
		cas := cases[idx[rj.Trace]]
		e := o.Events[rj.Matched]
		sig := fmt.Sprintf("%s:%s:%d", e.E, toJSON(e), cas.Seed)
		if known[i] {
			sig = "interrupted-picture"
		}
		c.Violate(sig, fmt.Sprintf("event %d of the history is not allowed: %s; articles %s", rj.Matched+1, trunc(toJSON(e), 700), trunc(toJSON(cas.Content), 400)),
			map[string]any{"kind": "e2e", "case": cas, "trace": o.Events})
	}
}
