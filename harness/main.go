package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

var checks = map[string]func(*Check){}
var workers = map[string]func(){}

func ignoreSigxfsz() { signal.Ignore(syscall.SIGXFSZ) }

func main() {
	if filepath.Base(os.Args[0]) == "vhlimit" {
		limited(os.Args[1:])
	}
	if n := filepath.Base(os.Args[0]); n == "fakepandoc" || n == "fakeconv" || strings.HasPrefix(n, "pandoc") || n == "vhconv" {
		fakeTool(n, os.Args[1:])
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROPERTY | vh worker KIND | vh replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fakecmd":
		fakeCommand(os.Args[2:])
	case "doctry":
		docTry(os.Args[2:])
	case "worker":
		w, ok := workers[os.Args[2]]
		if !ok {
			die("no worker %s", os.Args[2])
		}
		w()
	case "check":
		f, ok := checks[os.Args[2]]
		if !ok {
			var names []string
			for n := range checks {
				names = append(names, n)
			}
			sort.Strings(names)
			die("no check %s; have %v", os.Args[2], names)
		}
		scratch := os.Getenv("VERIF_SCRATCH")
		if scratch == "" {
			die("VERIF_SCRATCH is not set: run check.sh")
		}
		c := newCheck(os.Args[2], filepath.Join(scratch, "run"), os.Getenv("VERIF_DIR"), os.Getenv("VERIF_REPO"))
		must(os.MkdirAll(c.Scratch, 0o755))
		f(c)
		os.Exit(c.Finish())
	}
}
