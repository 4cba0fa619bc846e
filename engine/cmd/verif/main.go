package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/engine/check"
	"verif/engine/interp"
	"verif/engine/sym"
)

func main() {
	switch os.Args[1] {
	case "run":
		debugRun(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(check.ReplayFile("/repo", "/verif", os.Args[2]))
	}
}

func debugRun(a []string) {
	cfg := interp.Config{CPU: "avx2", Seed: 1}
	goarch, tags, repo := "amd64", "", "/repo"
	var rest []string
	raw := false
	conc := int64(0)
	for _, x := range a {
		if strings.HasPrefix(x, "--") {
			kv := strings.SplitN(x[2:], "=", 2)
			switch kv[0] {
			case "conc":
				cfg.Conc = true
			case "race":
				cfg.Race = true
			case "preempt":
				cfg.Preempt, _ = strconv.Atoi(kv[1])
			case "draws":
				cfg.Draws, _ = strconv.Atoi(kv[1])
			case "uints":
				cfg.Uints, _ = strconv.Atoi(kv[1])
			case "reads":
				cfg.Reads, _ = strconv.Atoi(kv[1])
			case "cpu":
				cfg.CPU = kv[1]
			case "arch":
				goarch = kv[1]
			case "repo":
				repo = kv[1]
			case "tags":
				tags = kv[1]
			case "raw":
				raw = true
			case "maxpaths":
				cfg.MaxPaths, _ = strconv.Atoi(kv[1])
			case "seed":
				cfg.Seed, _ = strconv.ParseInt(kv[1], 10, 64)
			case "time":
				d, _ := time.ParseDuration(kv[1])
				cfg.Deadline = time.Now().Add(d)
			case "concrete":
				conc, _ = strconv.ParseInt(kv[1], 10, 64)
			}
			continue
		}
		rest = append(rest, x)
	}
	t0 := time.Now()
	l, err := interp.Load(repo, goarch, tags)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	c := sym.NewCtx()
	c.Raw = raw
	s := sym.NewSolver(c, 20*time.Second, "z3-new", "-in")
	t0 = time.Now()
	m, err := interp.Start(l, c, s, cfg)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("init", time.Since(t0))
	var ints []int
	for _, x := range rest[1:] {
		v, _ := strconv.Atoi(x)
		ints = append(ints, v)
	}
	if conc != 0 {
		m.SetConcrete(conc)
	}
	t0 = time.Now()
	m.Violation = func(v *interp.Violation) bool {
		fmt.Println("VIOLATION", v.Kind, v.Msg, v.Stack)
		return false
	}
	fn := l.Harness(rest[0])
	if fn == nil {
		fmt.Println("no harness")
		os.Exit(2)
	}
	n := 0
	done := m.Explore(fn, []interp.Val{m.Ints(ints)}, func(pe *interp.PathEnd) {
		n++
		if n < 20 || pe.Kind == "violation" {
			fmt.Println("path", n, pe.Kind, pe.Msg)
		}
	})
	fmt.Printf("complete %v time %v\nstats %+v\nsolver %+v\nctx %+v\ncovers %v\n", done, time.Since(t0), m.Stats, s.Stat, c.Stat, m.Covers)
}
