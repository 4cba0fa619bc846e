package main

import (
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/engine/check"
)

func checkMain(a []string) int {
	r := &check.Run{Repo: "/repo", Verif: "/verif", Tier: "quick", Seed: 1}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil && s != 0 {
		r.Seed = s
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		r.Tier = t
	}
	limit := time.Duration(0)
	stdin := false
	for _, x := range a {
		k, v, _ := strings.Cut(strings.TrimPrefix(x, "--"), "=")
		if !strings.HasPrefix(x, "--") {
			r.ID = x
			continue
		}
		switch k {
		case "tier":
			r.Tier = v
		case "repo":
			r.Repo = v
		case "verif":
			r.Verif = v
		case "v":
			r.Verbose = true
		case "workers":
			r.Workers, _ = strconv.Atoi(v)
		case "limit":
			limit, _ = time.ParseDuration(v)
		case "stdin":
			stdin = true
		}
	}
	if limit == 0 {
		limit = 6 * time.Minute
		if r.Tier == "thorough" {
			limit = 3 * time.Hour
		}
	}
	r.Deadline = time.Now().Add(limit)
	var jobs []check.Job
	var err error
	if stdin {
		b, _ := io.ReadAll(os.Stdin)
		jobs, err = check.Parse(string(b))
	} else {
		jobs, err = check.Jobs(r.ID, r.Tier)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	return r.Do(jobs)
}
