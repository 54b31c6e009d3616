package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"
)

func init() {
	workers["par"] = parWorker
	checks["C06"] = checkC06
}

// Concurrent operations on the real cache, with the file operations as preemption points.

type parCase struct {
	Cfg  cacheCfg  `json:"cfg"`
	Ops  []cacheOp `json:"ops"` // the last NPar of them run concurrently
	NPar int       `json:"npar"`
	Mode string    `json:"mode"` // "pause": the first is held at each of its file operations while the others run; "random"
	Seed int64     `json:"seed"`
	Runs int       `json:"runs"`
}

type parOp struct {
	Op  string `json:"op"`
	F   string `json:"f"`
	C   int    `json:"c"`
	S   int    `json:"s"`
	Now int    `json:"now"`
	Res string `json:"res"`
	ID  int    `json:"id"`
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

func parWorker() {
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	n := 0
	workerLoop(func(in []byte) any {
		var cas parCase
		must(json.Unmarshal(in, &cas))
		var traces []json.RawMessage
		for k := 1; ; k++ {
			n++
			root := filepath.Join(wd, fmt.Sprintf("par%d", n))
			must(os.MkdirAll(root, 0o755))
			tr, more := parRun(root, &cas, k)
			must(os.RemoveAll(root))
			if tr != nil {
				b, err := json.Marshal(tr)
				must(err)
				traces = append(traces, b)
			}
			if !more {
				break
			}
		}
		return traces
	})
}

// parRun executes the history; its last operations concurrently under the k-th schedule. It returns nil if there is no
// such schedule, and whether to go on with the next one.
func parRun(root string, cas *parCase, k int) (map[string]any, bool) {
	seq := cas.Ops[:len(cas.Ops)-cas.NPar]
	par := cas.Ops[len(cas.Ops)-cas.NPar:]
	cc := cacheCase{Cfg: cas.Cfg, Ops: seq, Unit: 1}
	r := newCacheRun(root, &cc)
	tr := r.run()
	fs := &faultFS{}
	util.CurrentFilesystem = fs
	for _, o := range par {
		if o.Op == "store" {
			r.sizes[o.C] = o.S
		}
	}
	start := time.Now()
	const now = 60
	res := make([]parOp, len(par))
	var wg sync.WaitGroup
	exec := func(i int) {
		o := par[i]
		folder, name, _ := strings.Cut(o.F, "/")
		out := parOp{Op: o.Op, F: o.F, C: o.C, S: o.S, Now: now, ID: i}
		if o.Op == "store" {
			_, err := cache.CacheToFile(folder, name, &source{c: byte(o.C), left: o.S, chunk: 1, hook: func() error { return fs.hook("read", "") }})
			out.Res = "ok"
			if err != nil {
				out.Res = "err"
			}
		} else {
			p, ok, err := cache.GetFile(folder, name)
			_ = fs.hook("use", "")
			switch {
			case err != nil:
				out.Res = "err"
			case !ok:
				out.Res = "miss"
			default:
				out.Res, out.C = "hit", -1
				b, e := os.ReadFile(p)
				if os.IsNotExist(e) {
					out.C = -2
				} else if e == nil && len(b) > 0 && r.sizes[int(b[0])] == len(b) && bytes.Count(b, b[:1]) == len(b) {
					out.C = int(b[0])
				}
			}
		}
		res[i] = out
	}
	triggered := false
	var mu sync.Mutex
	others := make(chan struct{})
	switch cas.Mode {
	case "pause":
		// operation 0 runs until its k-th point; then the others run until they are done or blocked
		count := 0
		var first int64
		started := make(chan struct{})
		reached := make(chan struct{})
		firstDone := make(chan struct{})
		fs.hook = func(point, path string) error {
			if goid() != first {
				return nil
			}
			count++
			if count == k {
				triggered = true
				close(reached)
				select {
				case <-others:
				case <-time.After(8 * time.Millisecond):
				}
			}
			return nil
		}
		fs.done = func(string, string) {}
		wg.Add(1)
		go func() {
			defer wg.Done()
			first = goid()
			close(started)
			exec(0)
			close(firstDone)
		}()
		<-started
		select {
		case <-reached:
		case <-firstDone:
		}
		var rest sync.WaitGroup
		for i := 1; i < len(par); i++ {
			rest.Add(1)
			go func(i int) { defer rest.Done(); exec(i) }(i)
		}
		rest.Wait()
		close(others)
		wg.Wait()
	case "random":
		rnd := rand.New(rand.NewSource(cas.Seed*1000 + int64(k)))
		fs.hook = func(point, path string) error {
			mu.Lock()
			d := time.Duration(rnd.Intn(4)) * 150 * time.Microsecond
			mu.Unlock()
			if d > 0 {
				time.Sleep(d)
			}
			return nil
		}
		fs.done = func(string, string) {}
		for i := range par {
			wg.Add(1)
			go func(i int) { defer wg.Done(); exec(i) }(i)
		}
		wg.Wait()
		triggered = true
	}
	fs.hook = func(string, string) error { return nil }
	fs.done = func(string, string) {}
	if !triggered {
		return nil, false
	}
	st := r.state(config.Current.CacheDir, now, start, true)
	events := []any{}
	for _, e := range tr.Events {
		events = append(events, e)
	}
	events = append(events, map[string]any{"op": "par", "ops": res, "state": st, "tmp": r.tmpLeft(r.dir), "outside": r.outside(), "k": k})
	if cas.Mode == "random" {
		return map[string]any{"cfg": cas.Cfg, "events": events}, k < cas.Runs
	}
	return map[string]any{"cfg": cas.Cfg, "events": events}, k < 60
}

func checkC06(c *Check) {
	c.Assumptions = []string{"interleavings at the granularity of file operations and source reads: one operation is held at each of its points while the others run, and random delays at all points",
		"a caller reads the file it was pointed to after the lookup returned; the entry may have been replaced or evicted by a concurrent store in between"}
	var cases []parCase
	rnd := rand.New(rand.NewSource(c.Seed))
	add := func(lines [][]byte, npar int, mode string, limit int) {
		rnd.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		n := 0
		for _, l := range lines {
			var cas parCase
			must(json.Unmarshal(l, &cas))
			ok, stores := true, 0
			for _, o := range cas.Ops[len(cas.Ops)-npar:] {
				ok = ok && o.Op != "age"
				if o.Op == "store" {
					stores++
				}
			}
			if !ok || stores == 0 && rnd.Intn(8) > 0 {
				continue
			}
			cas.NPar, cas.Mode, cas.Seed, cas.Runs = npar, mode, c.Seed*100000+int64(len(cases)), 3
			cases = append(cases, cas)
			if n++; n >= limit {
				break
			}
		}
	}
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","images/b"}`, "{2,3}", "{6}", allStrategies, "{3}", 2, 4, true, "")}), 2, "pause", c.pick(260, 3000))
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","images/b","html/c"}`, "{2,3,4,7}", "{6,8}", allStrategies, "{1,3}", 2, 6, true, ""),
		Simulate: c.pick(600, 6000), Depth: 9, Seed: c.Seed}), 3, "random", c.pick(250, 2500))
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","images/b","html/c"}`, "{2,3,4,7}", "{6,8}", allStrategies, "{1,3}", 2, 6, true, ""),
		Simulate: c.pick(200, 2000), Depth: 9, Seed: c.Seed + 7}), 3, "pause", c.pick(60, 700))
	results := c.Run("par", marshalAll(cases), 60*time.Second)
	var traces [][]byte
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate(fmt.Sprintf("died:par:%s", toJSON(cases[i].Ops)), "the process ended ("+r.Died+") during concurrent operations "+toJSON(cases[i])+": "+firstLine(r.Stderr), cases[i])
			continue
		}
		var ts []json.RawMessage
		must(json.Unmarshal(r.Out, &ts))
		for _, t := range ts {
			traces = append(traces, t)
			idx = append(idx, i)
		}
	}
	c.count("concurrent_cases", len(cases))
	c.Sample(json.RawMessage(traces[0]))
	c.Sample(json.RawMessage(traces[len(traces)-1]))
	rej := c.Validate("CacheTrace", traceCfg+`CONSTANT Aspects = {"content","size","none","refuse","failed","temp","fresh","oversize"}`+"\n", nil, traces)
	for _, rj := range rej {
		i, matched := rj.Trace, rj.Matched
		var tr struct {
			Cfg    cacheCfg
			Events []json.RawMessage
		}
		must(json.Unmarshal(traces[i], &tr))
		pre := json.RawMessage("[]")
		if matched > 0 {
			pre = tr.Events[matched-1]
		}
		c.Violate(fmt.Sprintf("par:%s:%d", toJSON(cases[idx[i]].Ops), matched), fmt.Sprintf("cfg %s: after %s, %s is not the effect of any sequential order", toJSON(tr.Cfg), trunc(string(pre), 400), trunc(string(tr.Events[matched]), 800)),
			map[string]any{"kind": "par", "case": cases[idx[i]], "trace": json.RawMessage(traces[i])})
	}
}
