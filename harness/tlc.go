package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const tlcClasspath = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

type TLCOpts struct {
	Spec     string            // module name, found in /verif/specs
	Cfg      string            // text of the config file
	Defs     [][2]string       // constants and their values, any TLA+ expressions
	Simulate int               // number of behaviours to simulate (0: exhaustive)
	Depth    int               // simulation depth
	Seed     int64             // simulation seed
	Workers  int               // 0: all cores
	Env      map[string]string // read by the spec through IOEnv
	Timeout  time.Duration
	HeapMB   int
	OnJSON   func(line []byte) // called for every "@@"-line the spec prints
}

type TLCResult struct {
	Generated, Distinct, Depth int
	Out                        string
}

var tlcRuns int64
var reStats = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)
var reSimStats = regexp.MustCompile(`The number of states generated: (\d+)`)
var reDepth = regexp.MustCompile(`The depth of the complete state graph search is (\d+)`)

// TLC runs the model checker. Anything but a clean end is an error of the check (exit 3): the design itself must hold.
func (c *Check) TLC(o TLCOpts) *TLCResult {
	r, err := c.tlc(o)
	if err != nil {
		cause := r.Out
		if i := strings.Index(cause, "Error:"); i >= 0 {
			cause = cause[i:]
		}
		die("TLC %s: %v\n%s\n...\n%s", o.Spec, err, cause[:min(len(cause), 1500)], tail(r.Out, 3000))
	}
	c.addTLC(r)
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (c *Check) tlc(o TLCOpts) (*TLCResult, error) {
	n := atomic.AddInt64(&tlcRuns, 1)
	dir := filepath.Join(c.Scratch, fmt.Sprintf("tlc%d", n))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	// TLC resolves modules relative to the directory of the root module: copy the specs beside the generated config.
	specs, _ := filepath.Glob(filepath.Join(c.VerifDir, "specs", "*.tla"))
	for _, s := range specs {
		b, err := os.ReadFile(s)
		must(err)
		must(os.WriteFile(filepath.Join(dir, filepath.Base(s)), b, 0o644))
	}
	if len(o.Defs) > 0 {
		var m, k strings.Builder
		fmt.Fprintf(&m, "---- MODULE MC ----\nEXTENDS %s\n", o.Spec)
		k.WriteString("CONSTANTS\n")
		for _, d := range o.Defs {
			fmt.Fprintf(&m, "MC_%s == %s\n", d[0], d[1])
			fmt.Fprintf(&k, " %s <- MC_%s\n", d[0], d[0])
		}
		m.WriteString("====\n")
		must(os.WriteFile(filepath.Join(dir, "MC.tla"), []byte(m.String()), 0o644))
		o.Cfg += k.String()
		o.Spec = "MC"
	}
	cfg := filepath.Join(dir, "run.cfg")
	must(os.WriteFile(cfg, []byte(o.Cfg), 0o644))
	heap := o.HeapMB
	if heap == 0 {
		heap = 4000
	}
	workers := o.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	args := []string{"-XX:+UseParallelGC", "-Xss64m", fmt.Sprintf("-Xmx%dm", heap), "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + dir,
		"-cp", tlcClasspath, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", filepath.Join(dir, "meta"),
		"-workers", strconv.Itoa(workers), "-config", cfg}
	if o.Simulate > 0 {
		args = append(args, "-simulate", fmt.Sprintf("num=%d", (o.Simulate+workers-1)/workers), "-depth", strconv.Itoa(o.Depth), "-seed", strconv.FormatInt(o.Seed, 10))
	}
	args = append(args, o.Spec+".tla")
	timeout := o.Timeout
	if timeout == 0 {
		timeout = 10 * time.Minute
	}
	cmd := exec.Command("java", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "LC_ALL=C.UTF-8")
	for k, v := range o.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	pipe, err := cmd.StdoutPipe()
	must(err)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	must(cmd.Start())
	timedOut := false
	timer := time.AfterFunc(timeout, func() { timedOut = true; _ = cmd.Process.Kill() })
	defer timer.Stop()
	var out strings.Builder
	rd := bufio.NewReaderSize(pipe, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			if bytes.HasPrefix(line, []byte(`"@@`)) {
				if o.OnJSON != nil {
					var s string
					if e := json.Unmarshal(bytes.TrimSpace(line), &s); e != nil {
						die("TLC output line not understood: %v: %s", e, line)
					}
					o.OnJSON([]byte(s[2:]))
				}
			} else if out.Len() < 1<<20 {
				out.Write(line)
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	out.Write(stderr.Bytes())
	r := &TLCResult{Out: out.String()}
	if m := reStats.FindAllStringSubmatch(r.Out, -1); len(m) > 0 {
		last := m[len(m)-1]
		r.Generated, _ = strconv.Atoi(last[1])
		r.Distinct, _ = strconv.Atoi(last[2])
	} else if m := reSimStats.FindStringSubmatch(r.Out); m != nil {
		r.Generated, _ = strconv.Atoi(m[1])
		r.Distinct = 0
	}
	if m := reDepth.FindStringSubmatch(r.Out); m != nil {
		r.Depth, _ = strconv.Atoi(m[1])
	}
	if timedOut {
		return r, fmt.Errorf("timed out after %s", timeout)
	}
	if err != nil {
		return r, err
	}
	return r, nil
}

// Generate runs the spec and collects the distinct JSON values it prints.
func (c *Check) Generate(o TLCOpts) [][]byte {
	// The workers of one simulation share the numbers of RandomElement, so simulations run in parts with one worker each.
	parts := 1
	if o.Simulate > 0 {
		parts = min(6, max(1, o.Simulate/20))
	}
	lines := make([][][]byte, parts)
	var wg sync.WaitGroup
	for i := range lines {
		part := o
		if o.Simulate > 0 {
			part.Simulate, part.Workers, part.Seed = (o.Simulate+parts-1)/parts, 1, o.Seed*100+int64(i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			part.OnJSON = func(l []byte) { lines[i] = append(lines[i], append([]byte(nil), l...)) }
			r := c.TLC(part)
			if os.Getenv("VERIF_DEBUG") == "2" {
				fmt.Println(r.Out)
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	var out [][]byte
	for _, ls := range lines {
		for _, l := range ls {
			if !seen[string(l)] {
				seen[string(l)] = true
				out = append(out, l)
			}
		}
	}
	if len(out) == 0 {
		die("spec %s generated nothing", o.Spec)
	}
	return out
}

// Validate gives traces (one JSON array of events each) to a trace specification and returns the index of every
// rejected trace together with the number of events the specification could follow.
func (c *Check) Validate(spec, cfg string, env map[string]string, traces [][]byte) []rejection {
	return c.validate(spec, cfg, env, traces, true)
}

// Rejected returns which traces the specification does not accept: all of them, but not how far it followed them.
func (c *Check) Rejected(spec, cfg string, env map[string]string, traces [][]byte) []rejection {
	return c.validate(spec, cfg, env, traces, false)
}

func (c *Check) validate(spec, cfg string, env map[string]string, traces [][]byte, details bool) []rejection {
	rejected := map[int]int{}
	if len(traces) == 0 {
		return nil
	}
	const batch = 20000
	for from := 0; from < len(traces); from += batch {
		to := from + batch
		if to > len(traces) {
			to = len(traces)
		}
		c.validateBatch(spec, cfg, env, traces[from:to], from, rejected, details)
	}
	c.mu.Lock()
	c.Traces += len(traces)
	c.mu.Unlock()
	var out []rejection
	for i, l := range rejected {
		out = append(out, rejection{i, l})
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].Matched != out[b].Matched {
			return out[a].Matched < out[b].Matched
		}
		return out[a].Trace < out[b].Trace
	})
	return out
}

// rejection: a trace the specification does not allow, and how many of its events it could follow.
type rejection struct{ Trace, Matched int }

func (c *Check) validateBatch(spec, cfg string, env map[string]string, traces [][]byte, offset int, rejected map[int]int, details bool) {
	run := func(sel []int, progress func(t, l int)) {
		file := filepath.Join(c.Scratch, fmt.Sprintf("traces%d.ndjson", atomic.AddInt64(&tlcRuns, 1)))
		var buf bytes.Buffer
		for _, i := range sel {
			buf.Write(traces[i])
			buf.WriteByte('\n')
		}
		must(os.WriteFile(file, buf.Bytes(), 0o644))
		defer os.Remove(file)
		e := map[string]string{"TRACE_FILE": file, "TRACE_PROGRESS": "0"}
		for k, v := range env {
			e[k] = v
		}
		if progress != nil {
			e["TRACE_PROGRESS"] = "1"
		}
		c.TLC(TLCOpts{Spec: spec, Cfg: cfg, Env: e, OnJSON: func(line []byte) {
			var m struct{ Acc, L int }
			if err := json.Unmarshal(line, &m); err != nil {
				die("trace spec %s printed %s", spec, line)
			}
			if progress != nil {
				progress(sel[m.Acc-1], m.L)
			} else {
				delete(rejected, offset+sel[m.Acc-1])
			}
		}})
	}
	all := make([]int, len(traces))
	for i := range traces {
		all[i] = i
		rejected[offset+i] = 0
	}
	run(all, nil)
	if !details {
		return
	}
	var rej []int
	for i := range traces {
		if _, ok := rejected[offset+i]; ok {
			rej = append(rej, i)
		}
	}
	if len(rej) > 200 {
		// enough to report
		for _, i := range rej[200:] {
			delete(rejected, offset+i)
		}
		rej = rej[:200]
	}
	if len(rej) > 0 {
		run(rej, func(t, l int) {
			if l-1 > rejected[offset+t] {
				rejected[offset+t] = l - 1
			}
		})
	}
}
