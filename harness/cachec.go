package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

func init() {
	workers["cache"] = cacheWorker
	checks["C01"] = checkC01
	checks["C02"] = func(c *Check) { cacheHistories(c, `{"size","none","oversize","refuse","content"}`) }
	checks["C03"] = func(c *Check) { cacheHistories(c, `{"victims","none","failed"}`) }
	checks["C04"] = func(c *Check) { cacheHistories(c, `{"fresh"}`) }
}

const traceCfg = "INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n"

func cacheGenCfg(files, sizes, maxes, strategies, ages string, maxAge, maxOps int, emit bool, extra string) string {
	reStrategies, reMaxes := "{}", "{}"
	if strings.HasPrefix(extra, "RECONF ") {
		f := strings.Fields(extra)
		reStrategies, reMaxes, extra = f[1], f[2], ""
	}
	return fmt.Sprintf(`INIT Init
NEXT Next
INVARIANTS Inv StepInv Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Files = %s
 Sizes = %s
 Strategies = %s
 Maxes = %s
 MaxAge = %d
 MaxOps = %d
 Ages = %s
 ReStrategies = %s
 ReMaxes = %s
 Emitting = %s
%s
`, files, sizes, strategies, maxes, maxAge, maxOps, ages, reStrategies, reMaxes, strings.ToUpper(fmt.Sprint(emit)), extra)
}

const manyBytes = 1300000

const allStrategies = `{"lru","largest","none"}`

// cacheCases generates the histories: all short ones, and random long ones.
func cacheCases(c *Check, deepOps, simNum, simDepth int) []cacheCase {
	var cases []cacheCase
	add := func(lines [][]byte, unit, chunk int) {
		for _, l := range lines {
			var cas cacheCase
			must(json.Unmarshal(l, &cas))
			cas.Unit, cas.Chunk = unit, chunk
			cases = append(cases, cas)
		}
	}
	// 1. the design alone, deeper than the implementation is driven: every state up to renaming of times
	c.TLC(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","articles/b","images/c"}`, "{1,2,3}", "{5}", allStrategies, "{1,2,3}", 2, c.pick(5, 7), false, "VIEW AbsView")})
	// 2. every history up to deepOps
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","images/b"}`, "{1,2,4}", "{5}", allStrategies, "{1090,1,3}", 2, deepOps, true, "")}), 1, 0)
	// 3. random histories over more names, sizes and limits
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","articles/b","images/a","images/c","html/d","math/e"}`, "{1,2,3,5,9,12}", "{9,12,20}", allStrategies, "{1090,1,2,3,4,5}", 3, simDepth, true, ""),
		Simulate: simNum, Depth: simDepth + 3, Seed: c.Seed}), 1, 0)
	// 4. and the limit or strategy changes between runs on the same cache
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","articles/b","images/c"}`, "{1,2,3,5}", "{5,12}", allStrategies, "{1,2,5}", 3, simDepth, true, `RECONF {"lru","largest","none"} {4,9}`),
		Simulate: simNum / 2, Depth: simDepth + 3, Seed: c.Seed + 7}), 1, 0)
	// 5. the limits matter where a store replaces a file: every short history with a change of the limit
	add(c.Generate(TLCOpts{Spec: "CacheGen", Cfg: cacheGenCfg(`{"articles/a","images/b"}`, "{1,3}", "{9}", `{"lru","largest"}`, "{}", 2, deepOps+1, true, `RECONF {"lru","largest"} {4}`)}), 1, 0)
	// half of the random ones with real-world sizes (beyond copy buffers) and slow sources
	for i := range cases {
		if i%2 == 1 && len(cases[i].Ops) == simDepth {
			cases[i].Unit, cases[i].Chunk = 7000+int(c.Seed)%100, 5000
		}
		// a few with files of many megabytes
		if i%100 == 3 && len(cases[i].Ops) == simDepth {
			cases[i].Unit, cases[i].Chunk = manyBytes+int(c.Seed)%100, 60000
		}
		// the same history under different circumstances that must not matter
		cases[i].Names = (i / 2) % len(nameStyles)
		cases[i].Tick = i % 3
	}
	return cases
}

func marshalAll[T any](xs []T) [][]byte {
	out := make([][]byte, len(xs))
	for i := range xs {
		b, err := json.Marshal(xs[i])
		must(err)
		out[i] = b
	}
	return out
}

// cacheJudge runs the cases on the real cache and lets the specification decide.
func cacheJudge(c *Check, cases []cacheCase, aspects string) {
	results := c.Run("cache", marshalAll(cases), 30*time.Second)
	var traces [][]byte
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate("died:"+caseSig(cases[i]), "the process ended ("+r.Died+") during "+describeCase(cases[i])+": "+firstLine(r.Stderr), cases[i])
			continue
		}
		traces = append(traces, r.Out)
		idx = append(idx, i)
	}
	if len(traces) > 0 {
		c.Sample(map[string]any{"case": cases[idx[0]], "trace": json.RawMessage(traces[0])})
		k := len(traces) - 1
		c.Sample(map[string]any{"case": cases[idx[k]], "trace": json.RawMessage(traces[k])})
	}
	rej := c.Validate("CacheTrace", traceCfg+"CONSTANT Aspects = "+aspects+"\n", nil, traces)
	for _, rj := range rej {
		i, matched := rj.Trace, rj.Matched
		cas := cases[idx[i]]
		var tr cacheTrace
		must(json.Unmarshal(traces[i], &tr))
		ev := tr.Events[matched]
		pre := "empty"
		if matched > 0 {
			pre = toJSON(tr.Events[matched-1].State)
		}
		c.Violate(fmt.Sprintf("%s@%d", caseSig(cas), matched),
			fmt.Sprintf("cfg %s: after %s, operation %d (%s) gave %s %s, state %s, which the specification does not allow", toJSON(cas.Cfg), pre, matched+1, toJSON(cas.Ops[matched]), ev.Res, ev.Err, toJSON(ev.State)),
			map[string]any{"kind": "cache", "case": cas, "trace": tr})
	}
}

func caseSig(c cacheCase) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%d/%d/u%d", c.Cfg.Strategy, c.Cfg.Max, c.Cfg.MaxAge, c.Unit)
	for _, o := range c.Ops {
		switch o.Op {
		case "store":
			fmt.Fprintf(&b, " %s=%d", o.F, o.S)
		case "get":
			fmt.Fprintf(&b, " ?%s", o.F)
		case "age":
			fmt.Fprintf(&b, " %s+%dm", o.F, o.K)
		case "config":
			fmt.Fprintf(&b, " {%s/%d}", o.F, o.K)
		}
	}
	if c.Names != 0 || c.Tick != 0 {
		fmt.Fprintf(&b, " names%d tick%d", c.Names, c.Tick)
	}
	if c.Fault != nil {
		fmt.Fprintf(&b, " !%d:%s:%d:%d", c.Fault.At, c.Fault.Point, c.Fault.Nth, c.Fault.Kind)
	}
	if c.Crash != nil {
		fmt.Fprintf(&b, " X%d:%s:%d", c.Crash.At, c.Crash.Point, c.Crash.Nth)
	}
	return b.String()
}

func describeCase(c cacheCase) string { return caseSig(c) }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return trunc(strings.TrimSpace(l), 300)
		}
	}
	return ""
}

func cacheHistories(c *Check, aspects string) {
	c.Assumptions = []string{"operations of one process in sequence (interleavings: C06)", "the file system keeps modification times with at least millisecond precision"}
	cases := cacheCases(c, c.pick(3, 4), c.pick(2000, 20000), 10)
	c.count("histories", len(cases))
	cacheJudge(c, cases, aspects)
}

// checkC01: every history is run three ways: as it is with the directory inspected between all file operations; with
// each file operation and source read failing in turn; and with the process dying at each of them.
func checkC01(c *Check) {
	c.Assumptions = []string{"one failure per history", "a dead process leaves on disk what it had written (no loss of unsynced data)", "a failing removal of the temporary file itself may leave that file"}
	base := cacheCases(c, 2, c.pick(160, 2500), 6)
	rnd := rand.New(rand.NewSource(c.Seed))
	for i := range base {
		base[i].Snaps = base[i].Unit < manyBytes
		if base[i].Chunk == 0 {
			base[i].Chunk = 1
		}
	}
	results := c.Run("cache", marshalAll(base), 30*time.Second)
	var cases []cacheCase
	cases = append(cases, base...)
	for i, r := range results {
		if r.Died != "" || r.Skipped {
			continue // reported when judged below
		}
		var tr cacheTrace
		must(json.Unmarshal(r.Out, &tr))
		seen := map[string]bool{}
		for _, p := range tr.Points {
			if seen[p] {
				continue
			}
			seen[p] = true
			var at, nth int
			parts := strings.Split(p, ":")
			fmt.Sscan(parts[0], &at)
			fmt.Sscan(parts[2], &nth)
			if base[i].Unit >= manyBytes && rnd.Intn(100) != 0 {
				continue // hundreds of reads each
			}
			if base[i].Ops[at].Op == "age" || base[i].Ops[at].Op == "config" || parts[1] == "remove" {
				// a temporary file that cannot be removed stays until the next start

				continue
			}
			for _, crash := range []bool{false, true} {
				if crash && base[i].Ops[at].Op != "store" {
					continue
				}
				// short histories completely, long ones sampled
				if len(base[i].Ops) > 2 && rnd.Intn(100) >= c.pick(12, 60) {
					continue
				}
				cas := base[i]
				f := &cacheFault{At: at, Point: parts[1], Nth: nth, Kind: len(cases)}
				if crash {
					cas.Crash = f
				} else {
					cas.Fault = f
				}
				cas.Ops = withFollowUp(cas.Ops, at)
				cases = append(cases, cas)
			}
		}
		// disk full after some bytes of the last store
		for at, o := range base[i].Ops {
			if o.Op == "store" && rnd.Intn(100) < c.pick(30, 80) {
				cas := base[i]
				cas.Fault = &cacheFault{At: at, Point: "fsize", Nth: rnd.Intn(o.S*cas.Unit) + 0}
				cas.Ops = withFollowUp(cas.Ops, at)
				cases = append(cases, cas)
			}
		}
	}
	c.count("histories", len(base))
	c.count("faulted_or_crashed_histories", len(cases)-len(base))
	cacheJudge(c, cases, `{"content","failed","temp","crash","refuse"}`)
}

// withFollowUp makes sure that the entry hit by a fault is looked up and stored again afterwards.
func withFollowUp(ops []cacheOp, at int) []cacheOp {
	out := append([]cacheOp(nil), ops...)
	f := ops[at].F
	out = append(out, cacheOp{Op: "get", F: f}, cacheOp{Op: "store", F: f, C: 100 + len(ops), S: 1}, cacheOp{Op: "get", F: f})
	return out
}
