package main

import (
	"encoding/json"
	"fmt"
	"html"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Configurations generated from the Config specification, given to the real program.

type confValue struct {
	JSON  string   `json:"json"`
	Paths []string `json:"paths"`
}

type confLayer map[string]confValue

func (l *confLayer) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" || string(b) == "null" {
		*l = confLayer{}
		return nil
	}
	return json.Unmarshal(b, (*map[string]confValue)(l))
}

type confCase struct {
	Case struct {
		Mode    string            `json:"mode"`
		Conf    string            `json:"conf"`
		Start   string            `json:"start"`
		HasFile bool              `json:"hasFile"`
		File    confLayer         `json:"file"`
		Proj    confLayer         `json:"proj"`
		Cli     confLayer         `json:"cli"`
		Defect  string            `json:"defect"`
		CliOut  []string          `json:"cliOut"`
		ProjOut []string          `json:"projOut"`
		Arts    int               `json:"arts"`
		CfgArg  string            `json:"cfgArg"`
		ProjArg string            `json:"projArg"`
		Meta    map[string]string `json:"meta"`
	} `json:"case"`
	Want struct {
		Accepted  bool      `json:"accepted"`
		Effective confLayer `json:"effective"`
		Output    string    `json:"output"`
	} `json:"want"`
}

type confRequest struct{ Host, Page, Agent string }
type confCommand struct {
	Exe, Wd string
	Args    []string
	Titles  []string
}

type confGot struct {
	Dir      string
	Args     []string
	Requests []confRequest
	Commands []confCommand
	Exit     int
	Msg      bool
	Hang     bool
	Printed  map[string]any
	Config   bool // a configuration was printed
	Outputs  []string
	Tail     string
}

type confWorld struct{}

func (confWorld) classify(r *http.Request, body []byte) (string, string) {
	return "page", r.URL.Query().Get("page")
}
func (confWorld) serve(w http.ResponseWriter, r *http.Request, body []byte) {
	b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": r.URL.Query().Get("page"), "wikitext": map[string]string{"*": "Text zqxqz here.\n"}}})
	_, _ = w.Write(b)
}

var confArticles = []string{"Alpha one", "Beta/Two", "Gamma"}

// listSettings are given as JSON arrays (font-files among the paths)
func confJSON(name string, v confValue, dir string) any {
	if v.Paths != nil {
		ps := []string{}
		for _, p := range v.Paths {
			ps = append(ps, strings.ReplaceAll(p, "@", dir))
		}
		if name == "font-files" {
			return ps
		}
		if len(ps) == 0 {
			return ""
		}
		return ps[0]
	}
	var x any
	must(json.Unmarshal([]byte(strings.ReplaceAll(v.JSON, "@", dir)), &x))
	return x
}

func confFlags(l confLayer, dir string) (args []string) {
	var names []string
	for n := range l {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch x := confJSON(n, l[n], dir).(type) {
		case []string:
			for _, e := range x {
				args = append(args, "--"+n, e)
			}
		case []any:
			for _, e := range x {
				args = append(args, fmt.Sprintf("--%s=%v", n, e))
			}
		case float64:
			args = append(args, fmt.Sprintf("--%s=%d", n, int64(x)))
		default:
			args = append(args, fmt.Sprintf("--%s=%v", n, x))
		}
	}
	return
}

func confWorker() {
	wd, err := os.Getwd()
	must(err)
	m := newMitm(wd)
	exe, err := os.Executable()
	must(err)
	n := 0
	workerLoop(func(in []byte) any {
		var cas confCase
		must(json.Unmarshal(in, &cas))
		n++
		dir := filepath.Join(wd, fmt.Sprintf("conf%d", n))
		must(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(dir)
		return runConf(m, exe, dir, &cas)
	})
}

func runConf(m *mitm, exe, dir string, cas *confCase) *confGot {
	c := cas.Case
	at := func(p string) string { return strings.ReplaceAll(p, "@", dir) }
	write := func(p, s string) {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(s), 0o644))
	}
	for _, b := range []string{"@/start", "@/c/conf", "@/p/proj", "@/abs", "@/up", "@/c/up", "@/p/up"} {
		for _, f := range []string{"s1.css", "sub/s 2.css", "c1.png", "sub/c2.jpg", "f1.ttf", "sub/f*.ttf"} {
			write(filepath.Join(at(b), f), "x")
		}
		for _, f := range []string{"dd1", "sub/dd2", "outdir"} {
			must(os.MkdirAll(filepath.Join(at(b), f), 0o755))
		}
	}
	bin := filepath.Join(dir, "bin")
	must(os.MkdirAll(bin, 0o755))
	for _, l := range []string{filepath.Join(bin, "pandoc"), filepath.Join(bin, "pandoc2"), at("@/abs/pandoc1")} {
		must(os.Symlink(exe, l))
	}
	object := func(l confLayer, more map[string]any) string {
		o := map[string]any{}
		for n, v := range l {
			o[n] = confJSON(n, v, dir)
		}
		for k, v := range more {
			o[k] = v
		}
		return toJSON(o)
	}
	start := at(c.Start)
	arg := func(form, p string) string {
		if form == "rel" {
			r, err := filepath.Rel(start, p)
			must(err)
			return r
		}
		return p
	}
	got := &confGot{Dir: dir}
	level := "debug"
	if c.Defect == "bad-logging" {
		level = "loud"
	}
	args := []string{"--logging", level}
	if c.HasFile || strings.HasSuffix(c.Defect, "-config") {
		f := at(c.Conf) + "/my config.json"
		text := object(c.File, nil)
		if what, ok := strings.CutSuffix(c.Defect, "-config"); ok {
			text = spoil(text, what, `{"toc-depth": "2"}`)
		}
		if c.Defect == "dir-config" {
			f = at(c.Conf)
		}
		if c.Defect != "dir-config" && c.Defect != "no-config" {
			write(f, text)
		}
		if c.Defect == "no-config" {
			f += ".none"
		}
		args = append(args, "-c", arg(c.CfgArg, f))
	}
	args = append(args, confFlags(c.Cli, dir)...)
	switch c.Defect {
	case "bad-flag":
		args = append(args, "--unknown-flag=1")
	case "typed-flag":
		args = append(args, "--toc-depth=two")
	}
	if len(c.CliOut) > 0 {
		args = append(args, "-o", at(c.CliOut[0]))
	}
	args = append(args, c.Mode)
	switch c.Mode {
	case "project":
		more := map[string]any{"metadata": c.Meta, "articles": confArticles[:c.Arts]}
		if len(c.ProjOut) > 0 {
			more["output-file"] = at(c.ProjOut[0])
		}
		text := object(c.Proj, more)
		if what, ok := strings.CutSuffix(c.Defect, "-project"); ok {
			text = spoil(text, what, `{"articles": "Alpha one"}`)
		}
		f := at("@/p/proj/my project.json")
		if c.Defect != "no-project" {
			write(f, text)
		}
		args = append(args, arg(c.ProjArg, f))
	case "article":
		args = append(args, confArticles[0])
	case "standalone":
		f := at("@/up/in put.some.wiki")
		if c.Defect != "no-input" {
			write(f, "Text zqxqz here.\n")
		}
		args = append(args, arg(c.ProjArg, f))
	}
	if c.Defect == "no-args" {
		args = args[:len(args)-1]
	}
	got.Args = args
	must(os.MkdirAll(filepath.Join(dir, "home"), 0o755))
	p := startE2E(m, confWorld{}, wiki2book(), args, start, []string{"HOME=" + filepath.Join(dir, "home"), "XDG_CACHE_HOME=" + filepath.Join(dir, "xdg"), "PATH=" + bin + ":/usr/bin:/bin"})
	deadline := time.After(30 * time.Second)
loop:
	for {
		select {
		case op := <-p.ops:
			got.handle(op)
		case <-p.exited:
			for {
				select {
				case op := <-p.ops:
					got.handle(op)
					continue
				default:
				}
				break loop
			}
		case <-deadline:
			got.Hang = true
			break loop
		}
	}
	p.stop()
	text := p.output()
	got.Exit = p.cmd.ProcessState.ExitCode()
	got.Msg = strings.Contains(text, "Successfully created")
	got.Tail = tail(text, 500)
	if i := strings.LastIndex(text, "Configuration:\n"); i >= 0 {
		got.Config = json.NewDecoder(strings.NewReader(text[i+len("Configuration:\n"):])).Decode(&got.Printed) == nil
	}
	if st, err := os.Stat(at(cas.Want.Output)); err == nil && st.Mode().IsRegular() && st.Size() > 0 {
		got.Outputs = []string{cas.Want.Output}
	}
	return got
}

// spoil makes the text of a file one that has to be refused.
func spoil(text, what, typed string) string {
	switch what {
	case "cut":
		return text[:len(text)-1]
	case "half":
		return text[:len(text)/2]
	case "empty":
		return ""
	case "tail":
		return text + "\n}\n"
	case "two":
		return text + ",\n{\"toc-depth\": 3}"
	case "comma":
		return text[:len(text)-1] + ",}"
	case "comment":
		return "// settings\n" + text
	case "list":
		return "[" + text + "]"
	case "typed":
		return typed
	}
	return text
}

func (g *confGot) handle(op *e2eOp) {
	if op.Req != nil {
		g.Requests = append(g.Requests, confRequest{op.Req.Host, op.Req.URL.Query().Get("page"), op.Req.UserAgent()})
		op.answer <- func(w http.ResponseWriter) { confWorld{}.serve(w, op.Req, op.Body) }
		return
	}
	cmd := confCommand{Exe: op.Exe, Wd: op.Wd, Args: op.Args}
	pc := parsePandoc(op.Args)
	for _, s := range pc.Sources {
		f := s
		if !filepath.IsAbs(f) {
			f = filepath.Join(op.Wd, f)
		}
		t := "?"
		if b, err := os.ReadFile(f); err == nil {
			if m := reTitle.FindSubmatch(b); m != nil {
				t = html.UnescapeString(string(m[1]))
			}
		}
		cmd.Titles = append(cmd.Titles, t)
	}
	for _, o := range pc.Opts["output"] {
		_ = os.WriteFile(o, []byte("book"), 0o644)
	}
	g.Commands = append(g.Commands, cmd)
	op.answer <- func(w http.ResponseWriter) {}
}

var reTitle = regexp.MustCompile(`(?s)<h1[^>]*>(.*?)</h1>`)

func init() {
	workers["conf"] = confWorker
	checks["K01"] = func(c *Check) {
		checkConf(c, []confGen{{"all", `{"project"}`, 500, 12000}, {"all", `{"article", "standalone"}`, 160, 4000}})
	}
	checks["K02"] = func(c *Check) {
		checkConf(c, []confGen{{"invalid", `{"project", "article", "standalone"}`, 600, 18000}, {"defect", `{"project", "article", "standalone"}`, 400, 6000}})
	}
	checks["K03"] = func(c *Check) { checkConf(c, []confGen{{"paths", `{"project", "article", "standalone"}`, 600, 12000}}) }
	checks["G01"] = func(c *Check) {
		checkConf(c, []confGen{{"pandoc", `{"project", "article", "standalone"}`, 600, 12000}})
	}
}

type confGen struct {
	focus, modes    string
	quick, thorough int
}

func checkConf(c *Check, gens []confGen) {
	c.Assumptions = []string{"XDG_CACHE_HOME and HOME are set; pandoc is a stand-in that records its arguments", "the printed configuration (log level debug) is what is used; what pandoc and the sites get to see is checked on its own"}
	var cases []confCase
	add := func(lines [][]byte) {
		for _, l := range lines {
			var cas confCase
			must(json.Unmarshal(l, &cas))
			cases = append(cases, cas)
		}
	}
	// one setting at a time, exhaustively
	one := map[string][4]string{
		"K01": {`{x \in Names : Of(x).k \notin {"path", "type"}}`, "3", "FALSE", "TRUE"},
		"K02": {`{x \in Names : Of(x).bad # {}} \cup PathNames \cup {"types"}`, "2", "TRUE", "TRUE"},
		"K03": {`PathNames`, "3", "FALSE", "TRUE"},
		"G01": {`PathNames \cup {"toc-depth", "types"}`, "1", "FALSE", "FALSE"},
	}[c.Prop]
	if c.thorough() {
		one[1], one[3] = "3", "FALSE"
		if c.Prop == "K02" {
			one[1] = "2"
		}
	}
	add(c.Generate(TLCOpts{Spec: "ConfigOne", Cfg: "INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT MostSpecific\nINVARIANT OthersUntouched\nINVARIANT AcceptedIsValid\nINVARIANT NoFalseReject\nCHECK_DEADLOCK FALSE\n",
		Defs: [][2]string{{"Which", one[0]}, {"MaxSet", one[1]}, {"WithBad", one[2]}, {"Short", one[3]}}}))
	c.count("one setting at a time", len(cases))
	for i, g := range gens {
		n := c.pick(g.quick, g.thorough)
		o := TLCOpts{Spec: "ConfigGen", Cfg: "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", Defs: [][2]string{{"Focus", `"` + g.focus + `"`}, {"Modes", g.modes}}}
		add(c.Generate(simulated(o, n, 8, c.Seed*10+int64(i))))
	}
	c.count("runs", len(cases))
	for i, r := range c.Run("conf", marshalAll(cases), 120*time.Second) {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			die("the controller ended (%s): %s", r.Died, r.Stderr)
		}
		var got confGot
		must(json.Unmarshal(r.Out, &got))
		c.mu.Lock()
		c.Traces++
		c.mu.Unlock()
		c.count("mode "+cases[i].Case.Mode, 1)
		if cases[i].Want.Accepted {
			c.count("valid", 1)
		} else {
			c.count("invalid", 1)
		}
		if got.Config {
			c.count("printed configurations compared", 1)
		}
		if i < 2 {
			c.Sample(map[string]any{"case": cases[i].Case, "got": got})
		}
		for _, d := range confJudge(c.Prop, &cases[i], &got) {
			c.Violate(d[0], d[1]+"; "+trunc(strings.Join(got.Args, " "), 500)+"; "+trunc(got.Tail, 200), map[string]any{"kind": "conf", "case": cases[i], "got": got})
		}
	}
}

func (g *confGot) contact() bool { return len(g.Requests)+len(g.Commands) > 0 }

// confJudge compares what happened with what the specification says, as far as a property speaks of it.
func confJudge(prop string, cas *confCase, got *confGot) (out [][2]string) {
	bad := func(sig, f string, a ...any) { out = append(out, [2]string{sig, fmt.Sprintf(f, a...)}) }
	c, want := cas.Case, cas.Want
	if got.Hang {
		bad("hang", "the program does not end")
		return
	}
	str := func(n string) string { x, _ := confJSON(n, want.Effective[n], got.Dir).(string); return x }
	internal := str("output-driver") == "internal"
	fragile := internal && str("output-type") == "epub3" // the experimental driver
	if !want.Accepted {
		if prop == "K02" {
			if got.contact() {
				bad("accepted", "an invalid configuration is used: %s", toJSON(map[string]any{"requests": got.Requests, "commands": got.Commands}))
			} else if got.Exit == 0 || got.Msg {
				bad("silent", "an invalid configuration ends with status %d, success message %v", got.Exit, got.Msg)
			}
		}
		return
	}
	if !got.contact() {
		bad("rejected", "a valid configuration is rejected")
		return
	}
	if !fragile && (got.Exit != 0 || !got.Msg) {
		bad("failed", "a run with a valid configuration fails with status %d, success message %v", got.Exit, got.Msg)
		return
	}
	if prop == "K02" {
		return
	}
	cacheDir := str("cache-dir")
	if cacheDir == "" {
		cacheDir = filepath.Join(got.Dir, "xdg", "wiki2book")
	}
	wantOf := func(n string) any {
		switch {
		case n == "cache-dir":
			return cacheDir
		case n == "style-file" && str(n) == "" && fileExists("/usr/share/wiki2book/style.css"):
			return "/usr/share/wiki2book/style.css"
		}
		return confJSON(n, want.Effective[n], got.Dir)
	}
	same := func(a, b any) bool {
		var x, y any
		must(json.Unmarshal([]byte(toJSON(a)), &x))
		must(json.Unmarshal([]byte(toJSON(b)), &y))
		if l, ok := x.([]any); ok && len(l) == 0 && y == nil {
			return true
		}
		return reflect.DeepEqual(x, y)
	}
	if got.Config && (prop == "K01" || prop == "K03") {
		var names []string
		for n := range want.Effective {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if (want.Effective[n].Paths != nil) != (prop == "K03") {
				continue
			}
			have, ok := got.Printed[n]
			if !ok {
				bad("unprinted "+n, "setting %s is unknown", n)
			} else if w := wantOf(n); !same(w, have) {
				bad("value "+n, "%s is %s, not %s (config file %s, project file %s, command line %s)", n, toJSON(have), toJSON(w), shown(c.File, n), shown(c.Proj, n), shown(c.Cli, n))
			}
		}
	}
	if prop == "K01" && c.Mode != "standalone" {
		host := str("wikipedia-instance") + "." + str("wikipedia-host")
		agent := strings.Split(str("user-agent-template"), "{{VERSION}}")
		for _, r := range got.Requests {
			if r.Host != host {
				bad("host", "a request goes to %s, not to %s", r.Host, host)
			}
			rest := r.Agent
			for j, part := range agent {
				k := strings.Index(rest, part)
				if k < 0 || (j == 0 && k != 0) {
					bad("agent", "a request names %q, not %q", r.Agent, str("user-agent-template"))
					break
				}
				rest = rest[k+len(part):]
			}
		}
	}
	if fragile {
		return
	}
	if len(got.Outputs) == 0 && prop != "K01" {
		bad("output", "the output file %s was not written", want.Output)
	}
	if internal {
		if len(got.Commands) > 0 && prop == "G01" {
			bad("started", "a command is started: %s", toJSON(got.Commands))
		}
		return
	}
	if len(got.Commands) != 1 {
		bad("calls", "%d commands instead of one call of the book generator: %s", len(got.Commands), toJSON(got.Commands))
		return
	}
	cmd := got.Commands[0]
	pc := parsePandoc(cmd.Args)
	one := func(sig, opt string, n string) {
		var w []string
		switch x := wantOf(n).(type) {
		case string:
			if x != "" {
				w = []string{x}
			}
		case []string:
			w = x
		}
		if toJSON(append([]string{}, w...)) != toJSON(append([]string{}, pc.Opts[opt]...)) {
			bad(sig, "the book generator gets %s as %s, not %s", toJSON(pc.Opts[opt]), n, toJSON(w))
		}
	}
	paths := func() {
		one("pandoc style", "css", "style-file")
		one("pandoc cover", "cover", "cover-image")
		one("pandoc fonts", "font", "font-files")
		one("pandoc data", "data-dir", "pandoc-data-dir")
		if o := pc.Opts["output"]; len(o) != 1 || filepath.Clean(o[0]) != filepath.Clean(strings.ReplaceAll(want.Output, "@", got.Dir)) {
			bad("pandoc output", "the book generator gets %s as output, not %s", toJSON(o), want.Output)
		}
	}
	exe := func() {
		w := str("pandoc-executable")
		if !strings.Contains(w, "/") {
			w = filepath.Join(got.Dir, "bin", w)
		}
		have := cmd.Exe
		if !strings.Contains(have, "/") {
			have = filepath.Join(got.Dir, "bin", have)
		}
		if w != have {
			bad("exe", "%s is started, not %s", cmd.Exe, w)
		}
	}
	toc := func() {
		var w []string
		if d, _ := wantOf("toc-depth").(float64); d > 0 {
			w = []string{fmt.Sprint(d)}
		}
		if toJSON(w) != toJSON(pc.Opts["toc-depth"]) || pc.Toc != (w != nil) {
			bad("pandoc toc", "the book generator gets the depths %s (toc: %v), not %s", toJSON(pc.Opts["toc-depth"]), pc.Toc, toJSON(w))
		}
	}
	switch prop {
	case "K01":
		exe()
		toc()
		if toJSON(pc.Opts["to"]) != toJSON([]string{str("output-type")}) {
			bad("pandoc type", "the book generator gets the type %s", toJSON(pc.Opts["to"]))
		}
	case "K03":
		paths()
		if cmd.Wd != cacheDir {
			bad("cache dir", "the book generator works in %s, not in the cache directory %s", cmd.Wd, cacheDir)
		}
	case "G01":
		exe()
		toc()
		paths()
		if toJSON(pc.Opts["to"]) != toJSON([]string{str("output-type")}) {
			bad("pandoc type", "the book generator gets the type %s", toJSON(pc.Opts["to"]))
		}
		if len(pc.Opts["from"]) != 1 || !strings.HasPrefix(pc.Opts["from"][0], "html") {
			bad("pandoc from", "the book generator is told to read %s", toJSON(pc.Opts["from"]))
		}
		if len(pc.Other) > 0 {
			bad("pandoc other", "the book generator gets unexpected options %s", toJSON(pc.Other))
		}
		meta := map[string]string{"title": c.Meta["title"], "author": c.Meta["author"], "rights": c.Meta["license"], "language": c.Meta["language"], "date": c.Meta["date"]}
		titles := confArticles[:c.Arts]
		if c.Mode == "standalone" {
			meta["title"] = "in put"
			titles = []string{"in put"}
		}
		seen := map[string]bool{}
		for _, m := range pc.Opts["metadata"] {
			k, v, _ := strings.Cut(m, "=")
			if w, ok := meta[k]; !ok || seen[k] || v != w {
				bad("pandoc metadata", "the book generator gets the metadata %s, expected %s", toJSON(pc.Opts["metadata"]), toJSON(meta))
				break
			}
			seen[k] = true
		}
		for k, v := range meta {
			if v != "" && !seen[k] {
				bad("pandoc metadata", "the book generator gets the metadata %s, expected %s", toJSON(pc.Opts["metadata"]), toJSON(meta))
				break
			}
		}
		if toJSON(cmd.Titles) != toJSON(titles) {
			bad("pandoc sources", "the book generator gets %s with the titles %s, expected %s", toJSON(pc.Sources), toJSON(cmd.Titles), toJSON(titles))
		}
	}
	return
}

func shown(l confLayer, n string) string {
	if v, ok := l[n]; ok {
		return toJSON(v)
	}
	return "unset"
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }
