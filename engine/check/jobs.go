package check

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/engine/interp"
)

// Parse reads jobs, one per line: harness, integers (a..b stands for a job each), options.
func Parse(lines string) ([]Job, error) {
	var res []Job
	for _, line := range strings.Split(lines, "\n") {
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		js := []Job{{H: f[0], Line: strings.Join(f, " ")}}
		cpus := []string{""}
		procs := ""
		seeds := 1
		for _, x := range f[1:] {
			if strings.HasPrefix(x, "--") {
				k, v, _ := strings.Cut(x[2:], "=")
				n, _ := strconv.Atoi(v)
				for i := range js {
					j := &js[i]
					switch k {
					case "conc":
						j.C.Conc = true
					case "race":
						j.C.Race = true
					case "preempt":
						j.C.Preempt = n
					case "draws":
						j.C.Draws = n
					case "uints":
						j.C.Uints = n
					case "reads":
						j.C.Reads = n
					case "arch":
						j.Arch = v
					case "tags":
						j.Tags = v
					case "raw":
						j.Raw = true
					case "maxpaths":
						j.C.MaxPaths = n
					case "seed":
						j.C.Seed = int64(n)
					case "diff":
						j.Diff = n
					case "nonative":
						j.NoN = true
					case "time":
						d, err := time.ParseDuration(v)
						if err != nil {
							return nil, err
						}
						j.Max = d
					case "cpu", "seeds", "procs":
					default:
						return nil, fmt.Errorf("unknown option %s", x)
					}
				}
				if k == "cpu" {
					cpus = strings.Split(v, ",")
				}
				if k == "procs" {
					procs = ":" + v
				}
				if k == "seeds" {
					seeds = n
				}
				continue
			}
			var vals []int
			for _, p := range strings.Split(x, ",") {
				lo, hi, isRange := strings.Cut(p, "..")
				a, err := strconv.Atoi(lo)
				if err != nil {
					return nil, fmt.Errorf("%s: %v", line, err)
				}
				b := a
				if isRange {
					if b, err = strconv.Atoi(hi); err != nil {
						return nil, fmt.Errorf("%s: %v", line, err)
					}
				}
				for ; a <= b; a++ {
					vals = append(vals, a)
				}
			}
			var next []Job
			for _, j := range js {
				for _, v := range vals {
					k := j
					k.Cfg = append(append([]int(nil), j.Cfg...), v)
					next = append(next, k)
				}
			}
			js = next
		}
		for _, j := range js {
			for _, c := range cpus {
				for s := 0; s < seeds; s++ {
					k := j
					k.C.CPU = c
					if procs != "" {
						if c == "" {
							c = "avx2"
						}
						k.C.CPU = c + procs
					}
					if s > 0 {
						k.C.Seed = j.C.Seed + int64(s)
					}
					res = append(res, k)
				}
			}
		}
	}
	return res, nil
}

var _ interp.Config
