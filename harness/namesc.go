package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"
)

func init() {
	workers["names"] = namesWorker
	checks["C05"] = checkC05
}

type namesCase struct {
	Strategy string      `json:"strategy"`
	Names    [][2]string `json:"names"` // folder, name; stored in order (repetitions: stored again)
}

type namesEvent struct {
	Op      string     `json:"op"`
	Folder  string     `json:"folder"`
	Name    string     `json:"name"`
	C       int        `json:"c"`
	Res     string     `json:"res"`
	Path    []string   `json:"path"`
	Files   [][]string `json:"files"`
	Outside int        `json:"outside"`
}

func segments(dir, p string) []string {
	rel, err := filepath.Rel(dir, p)
	if err != nil {
		return []string{"OUTSIDE"}
	}
	return strings.Split(rel, "/")
}

func namesWorker() {
	quietLogs()
	wd, err := os.Getwd()
	must(err)
	n := 0
	workerLoop(func(in []byte) any {
		var cas namesCase
		must(json.Unmarshal(in, &cas))
		n++
		root := filepath.Join(wd, fmt.Sprintf("names%d", n))
		// Several empty levels above the cache directory, so that an escaping path stays in the scratch directory.
		dir := filepath.Join(root, "x", "x", "x", "x", "cache")
		must(os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755))
		defer os.RemoveAll(root)
		cfg := config.NewDefaultConfig()
		cfg.CacheDir = dir
		cfg.CacheEvictionStrategy = cas.Strategy
		config.Current = cfg
		var evs []namesEvent
		get := func(folder, name string) {
			ev := namesEvent{Op: "get", Folder: folder, Name: name, Path: []string{}, Files: [][]string{}}
			p, ok, err := cache.GetFile(folder, name)
			switch {
			case err != nil:
				ev.Res = "err"
			case !ok:
				ev.Res = "miss"
			default:
				ev.Res = "hit"
				ev.Path = segments(dir, p)
				b, _ := os.ReadFile(p)
				ev.C = -1
				fmt.Sscanf(string(b), "content %d.", &ev.C)
			}
			evs = append(evs, ev)
		}
		for i, it := range cas.Names {
			get(it[0], it[1])
			c := i + 1
			p, err := cache.CacheToFile(it[0], it[1], bytes.NewReader([]byte(fmt.Sprintf("content %d.", c))))
			ev := namesEvent{Op: "store", Folder: it[0], Name: it[1], C: c, Res: "ok", Path: segments(dir, p), Files: [][]string{}}
			if err != nil {
				ev.Res = "err"
			}
			evs = append(evs, ev)
		}
		for _, it := range cas.Names {
			get(it[0], it[1])
		}
		d := namesEvent{Op: "dir", Path: []string{}, Files: [][]string{}}
		_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				if strings.HasPrefix(p, dir+"/") {
					d.Files = append(d.Files, segments(dir, p))
				} else {
					d.Outside++
				}
			}
			return nil
		})
		evs = append(evs, d)
		return map[string]any{"events": evs}
	})
}

var symbolChars = map[string]string{"slash": "/", "back": "\\", "dot": ".", "pct": "%", "colon": ":", "star": "*", "quest": "?", "pipe": "|",
	"lt": "<", "gt": ">", "quot": "\"", "sp": " ", "two": "2", "five": "5", "F": "F", "C": "C", "A": "A", "three": "3", "a": "a", "tilde": "~", "us": "_",
	"plus": "+", "amp": "&", "hash": "#", "uml": "\u00e4", "comb": "a\u0308", "dash": "-", "dollar": "$", "apos": "'", "emoji": "\U0001f600", "b": "b",
	"blk": "Lorem ipsum dolor sit amet consetetur sadipsci"}

func checkC05(c *Check) {
	c.Assumptions = []string{"names contain printable characters only and stay below the file system's length limit", "the file system distinguishes upper and lower case"}
	syms := func(names ...string) string { return `{"` + strings.Join(names, `","`) + `"}` }
	var names []string
	seen := map[string]bool{}
	add := func(lines [][]byte) {
		for _, l := range lines {
			var s []string
			must(json.Unmarshal(l, &s))
			n := ""
			for _, x := range s {
				ch, ok := symbolChars[x]
				if !ok {
					die("symbol %s", x)
				}
				n += ch
			}
			// escaped and with the suffix of a temporary file the name has to fit into the file system
			if len(util.SanitizeFilename(n)) <= 240 && len(n) <= 240 && n != "." && n != ".." && !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
	}
	const cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Symbols = %s\n MaxLen = %d\n"
	special := []string{"slash", "back", "dot", "pct", "colon", "star", "quest", "pipe", "lt", "gt", "quot", "two", "five", "F", "C", "A", "three", "a", "sp", "us"}
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms(special...), 2)}))
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms("slash", "dot", "pct", "two", "five", "F"), c.pick(4, 5))}))
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms("slash", "star", "pct", "two", "five", "F", "A", "colon", "quest", "three"), c.pick(3, 4))}))
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms("blk", "a", "b"), 6)}))
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms("a", "A", "sp", "us", "dot", "uml", "comb"), c.pick(3, 4))}))
	var all []string
	for s := range symbolChars {
		if s != "blk" {
			all = append(all, s)
		}
	}
	sort.Strings(all)
	add(c.Generate(TLCOpts{Spec: "NamesGen", Cfg: fmt.Sprintf(cfg, syms(all...), 12), Simulate: c.pick(100, 1000), Depth: 12, Seed: c.Seed}))
	c.count("names", len(names))
	rnd := rand.New(rand.NewSource(c.Seed))
	rnd.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	// Every name once in groups (each group covers all its pairs), and pairs across groups through reshuffling.
	var cases []namesCase
	folders := []string{"images", "articles"}
	const group = 130
	for round := 0; round < c.pick(1, 6); round++ {
		for i := 0; i < len(names); i += group {
			j := min(i+group, len(names))
			cas := namesCase{Strategy: []string{"none", "lru", "largest"}[(i/group+round)%3]}
			for k, n := range names[i:j] {
				cas.Names = append(cas.Names, [2]string{folders[k%2], n})
				if k%7 == 0 {
					cas.Names = append(cas.Names, [2]string{folders[(k+1)%2], n})
				}
			}
			for k := 0; k < 10; k++ {
				cas.Names = append(cas.Names, cas.Names[rnd.Intn(len(cas.Names))])
			}
			cases = append(cases, cas)
		}
		rnd.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	}
	// Names that are alike in some way always meet.
	alike := []func(string) string{
		decodeAll,
		strings.ToLower,
		func(n string) string { return strings.ReplaceAll(n, "_", " ") },
		func(n string) string { return strings.Trim(n, " ._") },
		func(n string) string { return strings.Join(strings.Fields(n), " ") },
		func(n string) string { return strings.ReplaceAll(strings.ReplaceAll(n, "\u0308", ""), "\u00e4", "a") },
		func(n string) string { return n[:min(len(n), 45)] },
		func(n string) string { return n[:min(len(n), 120)] },
		func(n string) string { return n[:min(len(n), 190)] },
		func(n string) string { return n[max(0, len(n)-45):] },
		func(n string) string { return strings.TrimSuffix(n, filepath.Ext(n)) },
		func(n string) string {
			return strings.Map(func(r rune) rune {
				if strings.ContainsRune("<>:\"/\\|?*", r) {
					return -1
				}
				return r
			}, n)
		},
	}
	for ai, key := range alike {
		groups := map[string][]string{}
		for _, n := range names {
			groups[key(n)] = append(groups[key(n)], n)
		}
		var keys []string
		for k, ns := range groups {
			if len(ns) > 1 {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		cas := namesCase{Strategy: "none"}
		flush := func() {
			if len(cas.Names) > 0 {
				cases = append(cases, cas)
			}
			cas = namesCase{Strategy: "none"}
		}
		for _, k := range keys {
			ns := groups[k]
			sort.Strings(ns)
			rnd.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			if limit := c.pick(40, 400); len(ns) > limit && ai > 0 {
				ns = ns[:limit]
			}
			for _, n := range ns {
				cas.Names = append(cas.Names, [2]string{"images", n})
			}
			if len(cas.Names) > group {
				flush()
			}
		}
		flush()
	}
	results := c.Run("names", marshalAll(cases), 60*time.Second)
	var traces [][]byte
	var idx []int
	for i, r := range results {
		if r.Skipped {
			continue
		}
		if r.Died != "" {
			c.Violate(fmt.Sprintf("died:names:%d", i), "the process ended ("+r.Died+") while storing names: "+firstLine(r.Stderr), cases[i])
			continue
		}
		traces = append(traces, r.Out)
		idx = append(idx, i)
	}
	c.Sample(map[string]any{"names": names[:min(40, len(names))]})
	for _, rj := range c.Validate("CacheNames", traceCfg, nil, traces) {
		i, matched := rj.Trace, rj.Matched
		var tr struct{ Events []namesEvent }
		must(json.Unmarshal(traces[i], &tr))
		ev := tr.Events[matched]
		ev.Files = nil
		c.Violate(fmt.Sprintf("name:%s:%q", ev.Op, ev.Name), fmt.Sprintf("%s of %q in folder %s gave %s, path %q, content %d: shares a file with another item, or leaves its folder", ev.Op, ev.Name, ev.Folder, ev.Res, ev.Path, ev.C),
			map[string]any{"kind": "names", "case": cases[idx[i]], "event": ev})
	}
}

// decodeAll undoes percent escapes until nothing changes, ignoring broken ones.
func decodeAll(s string) string {
	for {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '%' && i+2 < len(s) {
				var v int
				if n, _ := fmt.Sscanf(s[i+1:i+3], "%02X", &v); n == 1 {
					b.WriteByte(byte(v))
					i += 2
					continue
				}
			}
			b.WriteByte(s[i])
		}
		if b.String() == s {
			return s
		}
		s = b.String()
	}
}
