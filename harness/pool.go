package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The implementation runs in worker processes, one case at a time: a case may panic, call os.Exit or hang without
// taking the check down, and that ending is itself an observation.

type Result struct {
	Out    json.RawMessage
	Died   string // "" or how the worker ended
	Stderr string
	// Skipped: so many workers died before that this case was not run (the deaths are reported)
	Skipped bool
}

type workerProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuffer
	dir    string
}

type tailBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() > 1<<16 {
		t.b.Reset()
	}
	return t.b.Write(p)
}
func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return tail(t.b.String(), 3000)
}

var workerCount int64

func (c *Check) startWorker(kind string) *workerProc {
	exe, err := os.Executable()
	must(err)
	dir := filepath.Join(c.Scratch, fmt.Sprintf("worker%d", atomic.AddInt64(&workerCount, 1)))
	must(os.MkdirAll(dir, 0o755))
	cmd := exec.Command(exe, "worker", kind)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "HOME="+dir, "XDG_CACHE_HOME="+filepath.Join(dir, "xdg"))
	in, err := cmd.StdinPipe()
	must(err)
	r, w, err := os.Pipe()
	must(err)
	cmd.ExtraFiles = []*os.File{w}
	tb := &tailBuffer{}
	cmd.Stdout = tb
	cmd.Stderr = tb
	must(cmd.Start())
	w.Close()
	return &workerProc{cmd, in, bufio.NewReaderSize(r, 1<<20), tb, dir}
}

func (c *Check) maxDeaths() int64 {
	if c.MaxDeaths > 0 {
		return int64(c.MaxDeaths)
	}
	return 150
}

// Run gives every case to a worker of the given kind and returns the results in order.
func (c *Check) Run(kind string, cases [][]byte, timeout time.Duration) []Result {
	results := make([]Result, len(cases))
	var next int64 = -1
	var deaths int64
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	if n > len(cases) {
		n = len(cases)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *workerProc
			stop := func() {
				if w != nil {
					w.in.Close()
					_ = w.cmd.Process.Kill()
					_ = w.cmd.Wait()
					_ = os.RemoveAll(w.dir)
					w = nil
				}
			}
			defer stop()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= len(cases) {
					return
				}
				if atomic.LoadInt64(&deaths) > c.maxDeaths() {
					results[k] = Result{Skipped: true}
					continue
				}
				if w == nil {
					w = c.startWorker(kind)
				}
				timedOut := int32(0)
				p := w.cmd.Process
				timer := time.AfterFunc(timeout, func() { atomic.StoreInt32(&timedOut, 1); _ = p.Kill() })
				_, werr := w.in.Write(append(append([]byte(nil), cases[k]...), '\n'))
				line, rerr := w.out.ReadBytes('\n')
				timer.Stop()
				if werr == nil && rerr == nil {
					results[k] = Result{Out: bytes.TrimSpace(line)}
					continue
				}
				w.in.Close()
				_ = w.cmd.Process.Kill()
				_ = w.cmd.Wait()
				how := w.cmd.ProcessState.String()
				if atomic.LoadInt32(&timedOut) == 1 {
					how = "timeout"
				}
				atomic.AddInt64(&deaths, 1)
				results[k] = Result{Died: how, Stderr: w.stderr.String()}
				_ = os.RemoveAll(w.dir)
				w = nil
			}
		}()
	}
	wg.Wait()
	return results
}

// workerLoop reads one case per line from stdin and answers each on fd 3.
func workerLoop(handle func(in []byte) any) {
	out := os.NewFile(3, "results")
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			b, e := json.Marshal(handle(line))
			must(e)
			_, e = out.Write(append(b, '\n'))
			must(e)
		}
		if err != nil {
			return
		}
	}
}

// RunVirtual is like Run in processes whose clock is simulated: it jumps ahead whenever everything waits. Such a process
// reads and writes regular files only, everything else happens in memory.
func (c *Check) RunVirtual(kind string, cases [][]byte, timeout time.Duration) []Result {
	results := make([]Result, len(cases))
	exe, err := os.Executable()
	must(err)
	exe = filepath.Join(filepath.Dir(exe), "vhvirtual")
	n := min(runtime.NumCPU(), len(cases))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []int
			for k := i; k < len(cases); k += n {
				mine = append(mine, k)
			}
			for attempt := 1; len(mine) > 0; {
				dir := filepath.Join(c.Scratch, fmt.Sprintf("worker%d", atomic.AddInt64(&workerCount, 1)))
				must(os.MkdirAll(dir, 0o755))
				var in bytes.Buffer
				for _, k := range mine {
					in.Write(cases[k])
					in.WriteByte('\n')
				}
				must(os.WriteFile(filepath.Join(dir, "in"), in.Bytes(), 0o644))
				stdin, err := os.Open(filepath.Join(dir, "in"))
				must(err)
				out, err := os.Create(filepath.Join(dir, "out"))
				must(err)
				cmd := exec.Command(exe, "worker", kind)
				cmd.Dir = dir
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				cmd.Env = append(os.Environ(), "HOME="+dir, "XDG_CACHE_HOME="+filepath.Join(dir, "xdg"))
				cmd.Env = append(cmd.Env, "GOMAXPROCS=1") // with more the simulated clock may stand still
				log, err := os.Create(filepath.Join(dir, "log"))
				must(err)
				cmd.Stdin, cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = stdin, log, log, []*os.File{out}
				must(cmd.Start())
				timedOut := int32(0)
				timer := time.AfterFunc(timeout, func() { atomic.StoreInt32(&timedOut, 1); _ = cmd.Process.Kill() })
				_ = cmd.Wait()
				timer.Stop()
				stdin.Close()
				out.Close()
				log.Close()
				b, err := os.ReadFile(filepath.Join(dir, "out"))
				must(err)
				done := 0
				for _, line := range bytes.SplitAfter(b, []byte("\n")) {
					if bytes.HasSuffix(line, []byte("\n")) && done < len(mine) {
						results[mine[done]] = Result{Out: bytes.TrimSpace(line)}
						done++
					}
				}
				if done > 0 {
					attempt = 1
				}
				if done < len(mine) {
					how := cmd.ProcessState.String()
					if attempt++; atomic.LoadInt32(&timedOut) == 1 && attempt <= 3 {
						mine = mine[done:]
						continue
					}
					if atomic.LoadInt32(&timedOut) == 1 {
						how = "timeout"
					}
					l, _ := os.ReadFile(filepath.Join(dir, "log"))
					results[mine[done]] = Result{Died: how, Stderr: tail(strings.ReplaceAll(string(l), "\x00", ""), 3000)}
					done++
				}
				mine = mine[done:]
				_ = os.RemoveAll(dir)
			}
		}()
	}
	wg.Wait()
	return results
}
