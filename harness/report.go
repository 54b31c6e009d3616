package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is the state of one property's check run: measured coverage, violations, known findings.
type Check struct {
	Prop        string
	Tier        string
	Seed        int64
	Scratch     string
	VerifDir    string
	RepoDir     string
	Level       string
	States      int // distinct states TLC found, over all runs of this check
	Transitions int // states TLC generated (transitions taken), over all runs
	Traces      int // traces/behaviours compared with the implementation
	Samples     []any
	MaxDeaths   int // dead workers after which no further cases are run
	Extra       map[string]any
	Assumptions []string
	mu          sync.Mutex
	start       time.Time
	violations  []violation
	known       map[string]knownFinding
	knownSeen   map[string]bool
}

type violation struct {
	Sig, Desc, Replay string
}

type knownFinding struct {
	Signature, What string
}

var reKnown = regexp.MustCompile(`^known: property=(\S+) signature=(\S+) (.+)$`)

func newCheck(prop, scratch, verifDir, repoDir string) *Check {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Check{Prop: prop, Tier: tier, Seed: seed, Scratch: scratch, VerifDir: verifDir, RepoDir: repoDir,
		Level: "model_checking", Extra: map[string]any{}, start: time.Now(),
		known: map[string]knownFinding{}, knownSeen: map[string]bool{}}
	// known: property=<id> signature=<signature> <what fails>
	// fixed: property=<id> <commit> <what failed>           (suppresses nothing)
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		die("known findings: %v", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		m := reKnown.FindStringSubmatch(line)
		if m != nil && m[1] == prop {
			c.known[m[2]] = knownFinding{m[2], m[3]}
		} else if m == nil && line != "" && !strings.HasPrefix(line, "fixed: ") && !strings.HasPrefix(line, "#") {
			die("known findings: line not understood: %s", line)
		}
	}
	return c
}

func (c *Check) thorough() bool { return c.Tier == "thorough" }

// pick returns q in the quick tier and t in the thorough tier.
func (c *Check) pick(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

// Violate records a violation seen on the real code. sig identifies the failing input, call site or history.
func (c *Check) Violate(sig, desc string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[sig]; ok {
		c.knownSeen[sig] = true
		return
	}
	for _, v := range c.violations {
		if v.Sig == sig {
			return
		}
	}
	path := ""
	if len(c.violations) < 20 {
		dir := filepath.Join(c.VerifDir, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.Prop, c.Tier, len(c.violations)))
		b, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "seed": c.Seed, "tier": c.Tier, "signature": sig, "what": desc, "case": replay}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("write replay: %v", err)
		}
	} else {
		path = c.violations[0].Replay
	}
	c.violations = append(c.violations, violation{sig, desc, path})
}

func (c *Check) Sample(s any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, s)
	}
}

func (c *Check) addTLC(r *TLCResult) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.States += r.Distinct
	c.Transitions += r.Generated
}

func (c *Check) count(key string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	old, _ := c.Extra[key].(int)
	c.Extra[key] = old + n
}

// Finish writes the evidence file, prints the verdict and returns the exit status.
func (c *Check) Finish() int {
	if len(c.violations) == 0 && (c.Traces == 0 || c.States == 0 || c.Transitions == 0 || len(c.Samples) == 0) {
		die("check %s explored nothing (states %d, transitions %d, traces %d, samples %d)", c.Prop, c.States, c.Transitions, c.Traces, len(c.Samples))
	}
	cov := map[string]any{"states": c.States, "transitions": c.Transitions,
		"traces_validated_against_impl": c.Traces, "samples": c.Samples}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations)}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(c.VerifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("write evidence: %v", err)
	}
	var sigs []string
	for s := range c.knownSeen {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, c.known[s].What)
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces against the implementation, %d violations, %.1fs\n",
		c.Prop, c.Tier, c.States, c.Transitions, c.Traces, len(c.violations), time.Since(c.start).Seconds())
	if len(c.violations) == 0 {
		return 0
	}
	for i, v := range c.violations {
		if i < 20 {
			fmt.Printf("  violation: %s | %s\n", trunc(strings.ReplaceAll(v.Sig, "\n", "\\n"), 200), trunc(v.Desc, 700))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, v.Replay)
		}
	}
	return 1
}

// die ends the check with an error: no verdict.
func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func toJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		die("json: %v", err)
	}
	return string(b)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
