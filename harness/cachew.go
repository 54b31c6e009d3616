package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"

	"github.com/hauke96/sigolo/v2"
)

// Replays histories of cache operations on the real cache package and records what happened.

type cacheCfg struct {
	Strategy string `json:"strategy"`
	Max      int64  `json:"max"`
	MaxAge   int64  `json:"maxAge"`
}

type cacheOp struct {
	Op string `json:"op"`
	F  string `json:"f"`
	C  int    `json:"c"`
	S  int    `json:"s"`
	K  int    `json:"k"`
}

type cacheFault struct {
	At    int    `json:"at"`    // index of the operation in the history
	Point string `json:"point"` // file operation, or "read", "fsize"
	Nth   int    `json:"nth"`   // which occurrence within the operation
	Kind  int    `json:"kind"`  // which error it gives
}

type cacheCase struct {
	Cfg   cacheCfg    `json:"cfg"`
	Ops   []cacheOp   `json:"ops"`
	Unit  int         `json:"unit"`  // bytes per abstract unit of size
	Chunk int         `json:"chunk"` // bytes per read of the source
	Fault *cacheFault `json:"fault"`
	Crash *cacheFault `json:"crash"` // record what a process finds that starts after a death at this point
	Snaps bool        `json:"snaps"`
	Names int         `json:"names"` // how the names of the history are spelled
	Tick  int         `json:"tick"`  // how far apart the operations are
}

type cacheEntry struct {
	F string `json:"f"`
	C int    `json:"c"`
	S int    `json:"s"`
	M int    `json:"m"`
}

type cacheEvent struct {
	Op      string         `json:"op"`
	F       string         `json:"f"`
	C       int            `json:"c"`
	S       int            `json:"s"`
	K       int            `json:"k"`
	Now     int            `json:"now"`
	Res     string         `json:"res"`
	Fault   string         `json:"fault"`
	State   []cacheEntry   `json:"state"`
	Snaps   [][]cacheEntry `json:"snaps"`
	Tmp     int            `json:"tmp"`
	Outside int            `json:"outside"`
	Err     string         `json:"err"`
}

type cacheTrace struct {
	Cfg    cacheCfg     `json:"cfg"`
	Events []cacheEvent `json:"events"`
	Points []string     `json:"points,omitempty"` // file operations seen per event (for fault enumeration)
}

// faultFS passes everything to the real file system, reports every operation to a hook and can fail one.
type faultFS struct {
	util.OsFilesystem
	hook func(point, path string) error // called before the operation
	done func(point, path string)       // called after it
}

func (f *faultFS) around(point, path string, run func() error) error {
	if err := f.hook(point, path); err != nil {
		return err
	}
	err := run()
	f.done(point, path)
	return err
}

func (f *faultFS) GetSizeInBytes(p string) (n int64, err error) {
	e := f.around("getsize", p, func() error { n, err = f.OsFilesystem.GetSizeInBytes(p); return err })
	return n, e
}
func (f *faultFS) Rename(a, b string) error {
	return f.around("rename", b, func() error { return f.OsFilesystem.Rename(a, b) })
}
func (f *faultFS) Remove(p string) error {
	point := "evict"
	if strings.Contains(p, "/.tmp/") {
		point = "remove"
	}
	return f.around(point, p, func() error { return f.OsFilesystem.Remove(p) })
}
func (f *faultFS) Create(p string) (r util.FileLike, err error) {
	e := f.around("create", p, func() error { r, err = f.OsFilesystem.Create(p); return err })
	if e != nil {
		return nil, e
	}
	return &faultFile{r, f}, nil
}
func (f *faultFS) MkdirAll(p string) error {
	return f.around("mkdir", p, func() error { return f.OsFilesystem.MkdirAll(p) })
}
func (f *faultFS) CreateTemp(d, pat string) (r util.FileLike, err error) {
	e := f.around("createtemp", d, func() error { r, err = f.OsFilesystem.CreateTemp(d, pat); return err })
	if e != nil {
		return nil, e
	}
	return &faultFile{r, f}, nil
}
func (f *faultFS) DirSizeInBytes(p string) (err error, n int64) {
	e := f.around("dirsize", p, func() error { err, n = f.OsFilesystem.DirSizeInBytes(p); return err })
	return e, n
}
func (f *faultFS) FindLargestFile(p, x string) (err error, n int64, r string) {
	e := f.around("find", p, func() error { err, n, r = f.OsFilesystem.FindLargestFile(p, x); return err })
	return e, n, r
}
func (f *faultFS) FindLruFile(p, x string) (err error, n int64, r string) {
	e := f.around("find", p, func() error { err, n, r = f.OsFilesystem.FindLruFile(p, x); return err })
	return e, n, r
}
func (f *faultFS) ReadFile(p string) (b []byte, err error) {
	e := f.around("readfile", p, func() error { b, err = f.OsFilesystem.ReadFile(p); return err })
	return b, e
}
func (f *faultFS) Stat(p string) (i os.FileInfo, err error) {
	e := f.around("stat", p, func() error { i, err = f.OsFilesystem.Stat(p); return err })
	return i, e
}
func (f *faultFS) Chtimes(p string, a, m time.Time) error {
	return f.around("chtimes", p, func() error { return f.OsFilesystem.Chtimes(p, a, m) })
}

type faultFile struct {
	util.FileLike
	fs *faultFS
}

func (f *faultFile) Write(p []byte) (n int, err error) {
	if e := f.fs.hook("write", f.Name()); e != nil {
		// a failing disk may take part of the data
		n, _ = f.FileLike.Write(p[:len(p)/2])
		return n, e
	}
	n, err = f.FileLike.Write(p)
	f.fs.done("write", f.Name())
	return n, err
}
func (f *faultFile) Stat() (i os.FileInfo, err error) {
	e := f.fs.around("fstat", f.Name(), func() error { i, err = f.FileLike.Stat(); return err })
	return i, e
}
func (f *faultFile) Close() error {
	return f.fs.around("close", f.Name(), func() error { return f.FileLike.Close() })
}

// The errors a file operation or a source may give.
var fileErrors = []error{errors.New("injected fault"), &os.PathError{Op: "op", Path: "file", Err: syscall.ENOSPC}, &os.PathError{Op: "op", Path: "file", Err: syscall.EIO},
	&os.PathError{Op: "op", Path: "file", Err: syscall.EACCES}, &os.LinkError{Op: "op", Old: "a", New: "b", Err: syscall.EXDEV}, &os.PathError{Op: "op", Path: "file", Err: syscall.EMFILE}}
var sourceErrors = []error{errors.New("injected fault"), io.ErrUnexpectedEOF, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, os.ErrDeadlineExceeded,
	context.DeadlineExceeded, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), context.Canceled, http.ErrBodyReadAfterClose, io.ErrShortBuffer}

func (f *cacheFault) err() error {
	if f.Point == "read" {
		return sourceErrors[f.Kind%len(sourceErrors)]
	}
	return fileErrors[f.Kind%len(fileErrors)]
}

// The names of a history are spelled in one of these ways on the real cache.
var nameStyles = []func(string) string{
	func(n string) string { return n },
	func(n string) string { return "." + n },
	func(n string) string { return strings.Repeat("long name ", 18) + n },
	func(n string) string { return "A: \"" + n + "\"/*?<>|%2F\\.png" },
	func(n string) string { return "ähm – " + n + ".tmp" },
	func(n string) string { return n + strings.Repeat(".x", 90) },
}
var ticks = []time.Duration{time.Second, time.Millisecond, time.Microsecond}

// source delivers n bytes of value c in chunks; it may fail after a number of reads.
type source struct {
	c     byte
	left  int
	chunk int
	hook  func() error
}

func (r *source) Read(p []byte) (int, error) {
	if err := r.hook(); err != nil {
		return 0, err
	}
	if r.left == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if n > r.left {
		n = r.left
	}
	copy(p, bytes.Repeat([]byte{r.c}, n))
	r.left -= n
	return n, nil
}

type cacheRun struct {
	root, dir string
	cas       *cacheCase
	sizes     map[int]int          // content id -> bytes
	set       map[string]time.Time // modification times as this harness set them
	stamp     map[string]int       // their logical values
	sentinels map[string]string    // files outside the entry folders
	base      time.Time
	abstract  map[string]string // path below the cache -> name in the history
}

// concrete returns folder and name on the real cache for a name of the history.
func (r *cacheRun) concrete(f string) (string, string) {
	folder, name, _ := strings.Cut(f, "/")
	return folder, nameStyles[r.cas.Names%len(nameStyles)](name)
}

func newCacheRun(root string, cas *cacheCase) *cacheRun {
	r := &cacheRun{root: root, dir: filepath.Join(root, "cache"), cas: cas, sizes: map[int]int{}, set: map[string]time.Time{},
		stamp: map[string]int{}, sentinels: map[string]string{}, base: time.Now().Truncate(time.Second), abstract: map[string]string{}}
	must(os.MkdirAll(filepath.Join(r.dir, ".tmp"), 0o755))
	must(os.MkdirAll(filepath.Join(r.dir, "html"), 0o755))
	// Bystanders: beside the cache directory (large and old, tempting for either strategy), and an old empty
	// temporary file of another process.
	side := filepath.Join(root, "outside.dat")
	must(os.WriteFile(side, bytes.Repeat([]byte("x"), 4096), 0o644))
	old := time.Now().Add(-1000 * time.Hour)
	must(os.Chtimes(side, old, old))
	tmp := filepath.Join(r.dir, ".tmp", "other.tmp")
	must(os.WriteFile(tmp, nil, 0o644))
	must(os.Chtimes(tmp, old, old))
	r.sentinels[side], r.sentinels[tmp] = "side", "tmp"
	return r
}

// state reads the cache directory; what the operation running since opStart touched gets the logical time now.
func (r *cacheRun) state(dir string, now int, opStart time.Time, commit bool) []cacheEntry {
	out := []cacheEntry{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if p == filepath.Join(dir, ".tmp") {
				return filepath.SkipDir
			}
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if f, ok := r.abstract[rel]; ok {
			rel = f
		}
		e := cacheEntry{F: rel, C: -1, S: len(b)}
		if len(b) > 0 && r.sizes[int(b[0])] == len(b) && bytes.Count(b, b[:1]) == len(b) {
			e.C = int(b[0])
		}
		e.S = (len(b) + r.cas.Unit - 1) / r.cas.Unit
		last, ok := r.set[rel]
		if ok && last.Equal(info.ModTime()) {
			e.M = r.stamp[rel]
		} else {
			e.M = -99999
			if !info.ModTime().Before(opStart.Add(-time.Second)) && !info.ModTime().After(time.Now().Add(time.Second)) {
				e.M = now
			}
			if commit {
				t := r.base.Add(time.Duration(now)*ticks[r.cas.Tick%len(ticks)] - 40*time.Second)
				must(os.Chtimes(p, t, t))
				if i, err := os.Stat(p); err == nil {
					t = i.ModTime()
				}
				r.set[rel], r.stamp[rel] = t, e.M
			}
		}
		out = append(out, e)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].F < out[j].F })
	return out
}

func (r *cacheRun) outside() int {
	n := 0
	for p := range r.sentinels {
		if _, err := os.Stat(p); err != nil {
			n++
		}
	}
	es, _ := os.ReadDir(r.root)
	for _, e := range es {
		if e.Name() != "cache" && e.Name() != "outside.dat" && !strings.HasPrefix(e.Name(), "crash") {
			n++
		}
	}
	return n
}

func (r *cacheRun) tmpLeft(dir string) int {
	es, _ := os.ReadDir(filepath.Join(dir, ".tmp"))
	n := 0
	for _, e := range es {
		if e.Name() != "other.tmp" {
			n++
		}
	}
	return n
}

func copyTree(from, to string) {
	_ = filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		if info.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		must(os.WriteFile(filepath.Join(to, rel), b, 0o644))
		return os.Chtimes(filepath.Join(to, rel), info.ModTime(), info.ModTime())
	})
}

func sameEntries(a, b []cacheEntry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *cacheRun) run() cacheTrace {
	cas := r.cas
	cfg := config.NewDefaultConfig()
	cfg.CacheDir = r.dir
	cfg.CacheMaxSize = cas.Cfg.Max * int64(cas.Unit)
	cfg.CacheMaxAge = cas.Cfg.MaxAge
	cfg.CacheEvictionStrategy = cas.Cfg.Strategy
	config.Current = cfg
	fs := &faultFS{}
	util.CurrentFilesystem = fs
	tr := cacheTrace{Cfg: cas.Cfg, Events: []cacheEvent{}}
	crashed := ""
	for i, op := range cas.Ops {
		now := i + 1
		start := time.Now()
		ev := cacheEvent{Op: op.Op, F: op.F, C: op.C, S: op.S, K: op.K, Now: now, Snaps: [][]cacheEntry{}}
		folder, name := "", ""
		if op.Op != "config" {
			folder, name = r.concrete(op.F)
			rel, _ := filepath.Rel(r.dir, cache.GetFilePathInCache(folder, name))
			r.abstract[rel] = op.F
		}
		seen := map[string]int{}
		var points []string
		snapshot := func() {
			if cas.Snaps && op.Op == "store" {
				st := r.state(r.dir, now, start, false)
				if n := len(ev.Snaps); n == 0 || !sameEntries(ev.Snaps[n-1], st) {
					ev.Snaps = append(ev.Snaps, st)
				}
			}
		}
		fs.hook = func(point, path string) error {
			snapshot()
			seen[point]++
			points = append(points, fmt.Sprintf("%d:%s:%d", i, point, seen[point]))
			if c := cas.Crash; c != nil && c.At == i && c.Point == point && c.Nth == seen[point] && crashed == "" {
				crashed = filepath.Join(r.root, "crashed")
				copyTree(r.dir, crashed)
			}
			if f := cas.Fault; f != nil && f.At == i && f.Point == point && f.Nth == seen[point] {
				return f.err()
			}
			return nil
		}
		fs.done = func(point, path string) { snapshot() }
		if f := cas.Fault; f != nil && f.At == i {
			ev.Fault = f.Point
		}
		switch op.Op {
		case "store":
			r.sizes[op.C] = op.S * cas.Unit
			src := &source{c: byte(op.C), left: op.S * cas.Unit, chunk: cas.Chunk, hook: func() error { return fs.hook("read", "") }}
			restore := func() {}
			if f := cas.Fault; f != nil && f.At == i && f.Point == "fsize" {
				restore = limitFileSize(uint64(f.Nth))
			}
			p, err := cache.CacheToFile(folder, name, src)
			restore()
			ev.Res = "ok"
			if err != nil {
				ev.Res, ev.Err = "err", trunc(err.Error(), 300)
			} else if rel, e := filepath.Rel(r.dir, p); e != nil || r.abstract[rel] != op.F {
				ev.Res, ev.Err = "badpath", p
			}
		case "get":
			p, ok, err := cache.GetFile(folder, name)
			ev.Res = "miss"
			if err != nil {
				ev.Res, ev.Err = "err", trunc(err.Error(), 300)
			} else if ok {
				ev.Res, ev.C = "hit", -1
				b, e := os.ReadFile(p)
				if e == nil && len(b) > 0 && r.sizes[int(b[0])] == len(b) && bytes.Count(b, b[:1]) == len(b) {
					ev.C = int(b[0])
				}
			}
		case "age":
			p := cache.GetFilePathInCache(folder, name)
			if _, err := os.Stat(p); err == nil {
				t := r.base.Add(-time.Duration(op.K)*time.Minute - 30*time.Second)
				must(os.Chtimes(p, t, t))
				i, err := os.Stat(p)
				must(err)
				r.set[op.F], r.stamp[op.F] = i.ModTime(), -op.K
			}
			ev.Res = "ok"
		case "config":
			config.Current.CacheEvictionStrategy = op.F
			config.Current.CacheMaxSize = int64(op.K) * int64(cas.Unit)
			ev.Res = "ok"
		}
		fs.hook = func(string, string) error { return nil }
		fs.done = func(string, string) {}
		tr.Points = append(tr.Points, points...)
		if crashed != "" {
			// The process died inside this operation: go on with what was on disk, like a new process does, which
			// starts by clearing the temporary folder.
			r.dir = crashed
			config.Current.CacheDir = crashed
			must(os.RemoveAll(filepath.Join(crashed, ".tmp")))
			must(os.MkdirAll(filepath.Join(crashed, ".tmp"), 0o755))
			for p, kind := range r.sentinels {
				if kind == "tmp" {
					delete(r.sentinels, p)
				}
			}
			ev.Op = "crash"
			ev.Res = "crash"
			ev.Snaps = [][]cacheEntry{}
			cas.Crash = nil
			crashed = ""
		}
		ev.State = r.state(r.dir, now, start, true)
		ev.Tmp = r.tmpLeft(r.dir)
		ev.Outside = r.outside()
		tr.Events = append(tr.Events, ev)
	}
	return tr
}

// limitFileSize makes the kernel fail writes beyond n bytes of any file of this process, as a full disk would.
func limitFileSize(n uint64) func() {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	lim := syscall.Rlimit{Cur: n, Max: old.Max}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

func quietLogs() {
	sigolo.SetDefaultLogLevel(sigolo.LOG_FATAL)
}

func cacheWorker() {
	quietLogs()
	ignoreSigxfsz()
	wd, err := os.Getwd()
	must(err)
	n := 0
	workerLoop(func(in []byte) any {
		var cas cacheCase
		must(json.Unmarshal(in, &cas))
		if cas.Unit == 0 {
			cas.Unit = 1
		}
		n++
		root := filepath.Join(wd, fmt.Sprintf("case%d", n))
		must(os.MkdirAll(root, 0o755))
		defer os.RemoveAll(root)
		return newCacheRun(root, &cas).run()
	})
}
