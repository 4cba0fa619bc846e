// Package check runs the jobs of a property, confirms what they find on the real code, and writes the evidence.
package check

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/interp"
	"verif/engine/native"
	"verif/engine/sym"
)

// Job is one exploration: a harness with its bounds.
type Job struct {
	H    string
	Line string // of the job file
	Cfg  []int
	C    interp.Config
	Arch string // amd64 if empty
	Tags string
	Raw  bool          // no normal forms: the solver gets everything
	Max  time.Duration // time limit of the exploration
	Diff int           // executions compared with the compiled code
	NoN  bool          // no native runs
}

func (j *Job) name() string {
	s := j.H
	for _, x := range j.Cfg {
		s += fmt.Sprintf(" %d", x)
	}
	if j.C.CPU != "" && j.C.CPU != "avx2" {
		s += " cpu=" + j.C.CPU
	}
	if j.Arch != "" {
		s += " " + j.Arch
	}
	if j.Tags != "" {
		s += " tags=" + j.Tags
	}
	if j.C.Conc {
		s += fmt.Sprintf(" conc seed=%d", j.C.Seed)
	}
	if j.C.Reads > 0 {
		s += fmt.Sprintf(" reads<=%d", j.C.Reads)
	}
	if j.C.Uints > 0 {
		s += fmt.Sprintf(" numbers<=%d", j.C.Uints)
	}
	if j.C.Draws > 0 {
		s += fmt.Sprintf(" draws<=%d", j.C.Draws)
	}
	if j.C.Race {
		s += fmt.Sprintf(" races preempt<=%d", j.C.Preempt)
	}
	if j.C.MaxPaths > 0 {
		s += fmt.Sprintf(" paths<=%d", j.C.MaxPaths)
	}
	if j.Raw {
		s += " raw"
	}
	return s
}

// Replay is a violation as it is written out.
type Replay struct {
	Property string
	Kind     string
	Msg      string
	Where    string `json:",omitempty"`
	Job      string
	Arch     string `json:",omitempty"`
	Tags     string `json:",omitempty"`
	CPU      string `json:",omitempty"`
	Tape     *interp.Tape
	Leak     *interp.Leak `json:",omitempty"`
	Native   string       // what the compiled code did
}

type result struct {
	job      *Job
	complete bool
	stats    interp.Stats
	queries  int
	solver   time.Duration
	covers   map[string]int
	funcs    map[string]bool
	asms     []string
	diffs    int
	natives  int
	mism     []string
	unconf   []string
	wall     time.Duration
	skipped  bool
	samples  []string
	err      string
	certs    [4]int // proved, undecided, refuted, proved before
}

// Run is one run of a check.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Repo     string
	Verif    string
	Deadline time.Time
	Workers  int
	Verbose  bool

	mu       sync.Mutex
	loaded   map[string]*loadOnce
	nat      *native.Builder
	dir      string
	found    []*Replay
	stop     bool
	results  []*result
	late     int
	certs    map[string]bool // replacements the solver was asked about
	CertMax  time.Duration   // time for that
	certTime time.Duration
	laws     int
	badLaw   string
}

type loadOnce struct {
	once sync.Once
	l    *interp.Loaded
	err  error
}

func (r *Run) load(arch, tags string) (*interp.Loaded, error) {
	if arch == "" {
		arch = "amd64"
	}
	k := arch + "," + tags
	r.mu.Lock()
	x := r.loaded[k]
	if x == nil {
		x = &loadOnce{}
		r.loaded[k] = x
	}
	r.mu.Unlock()
	x.once.Do(func() { x.l, x.err = interp.Load(r.Repo, arch, tags) })
	return x.l, x.err
}

func variant(j *Job) string {
	if j.Tags != "" {
		return "tags=" + j.Tags
	}
	return ""
}

// worker keeps machines and native processes.
type worker struct {
	r        *Run
	key      string
	m        *interp.Machine
	natives  map[string]*native.Runner
	confirms int
	cs       *sym.Solver
}

func (j *Job) machine() string {
	return j.Arch + "|" + j.Tags + "|" + j.C.CPU + "|" + strconv.FormatBool(j.Raw)
}

func (w *worker) machine(j *Job) (*interp.Machine, error) {
	key := j.machine()
	if w.m != nil && w.key == key && w.m.C.Stat.Terms < 1_000_000 {
		return w.m, nil
	}
	w.drop()
	l, err := w.r.load(j.Arch, j.Tags)
	if err != nil {
		return nil, err
	}
	c := sym.NewCtx()
	c.Raw = j.Raw
	s := sym.NewSolver(c, 20*time.Second, "z3-new", "-in")
	m, err := interp.Start(l, c, s, j.C)
	if err != nil {
		s.Close()
		return nil, err
	}
	w.m, w.key = m, key
	return m, nil
}

func (w *worker) drop() {
	if w.m != nil {
		w.m.S.Close()
		w.m = nil
	}
}

func (w *worker) runner(v, cpu string) (*native.Runner, error) {
	k := v + "|" + cpu
	if n := w.natives[k]; n != nil {
		return n, nil
	}
	bin, err := w.r.nat.Binary(v)
	if err != nil {
		return nil, err
	}
	n := native.NewRunner(bin, cpu)
	w.natives[k] = n
	return n, nil
}

func (w *worker) close() {
	w.drop()
	if w.cs != nil {
		w.cs.Close()
	}
	for _, n := range w.natives {
		n.Close()
	}
}

func (r *Run) logf(f string, a ...any) {
	if r.Verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Do runs jobs and returns the exit code.
func (r *Run) Do(jobs []Job) int {
	t0 := time.Now()
	debug.SetGCPercent(100)
	debug.SetMemoryLimit(14 << 30)
	go func() {
		// explorations end when memory runs low
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for range time.Tick(500 * time.Millisecond) {
			metrics.Read(s)
			interp.LowMemory.Store(s[0].Value.Uint64() > 20<<30)
		}
	}()
	if r.Workers == 0 {
		r.Workers = runtime.NumCPU()
	}
	r.loaded = map[string]*loadOnce{}
	r.certs = map[string]bool{}
	if r.CertMax == 0 {
		r.CertMax = 90 * time.Second
		if r.Tier == "thorough" {
			r.CertMax = 2000 * time.Second
		}
	}
	laws := make(chan bool)
	go func() {
		r.laws, r.badLaw = sym.Laws(20 * time.Second)
		close(laws)
	}()
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r.dir = dir
	defer os.RemoveAll(dir)
	r.nat = native.NewBuilder(r.Repo, dir)
	go r.nat.Binary("")
	if _, err := r.load("", ""); err != nil {
		fmt.Println("the code under test does not load:", err)
		return 2
	}
	ch := make(chan *Job)
	var wg sync.WaitGroup
	for i := 0; i < r.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{r: r, natives: map[string]*native.Runner{}}
			defer w.close()
			for j := range ch {
				res := w.job(j)
				r.mu.Lock()
				if r.late == 0 {
					r.results = append(r.results, res)
				}
				r.mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		if jobs[i].C.CPU == "" {
			jobs[i].C.CPU = "avx2"
		}
	}
	// machines are made for one processor
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].machine() < jobs[j].machine() })
	for i := range jobs {
		if jobs[i].C.Seed == 0 {
			jobs[i].C.Seed = r.Seed
		} else {
			jobs[i].C.Seed += r.Seed * 1000
		}
		select {
		case ch <- &jobs[i]:
		case <-time.After(time.Until(r.Deadline) + 30*time.Second):
			r.mu.Lock()
			r.results = append(r.results, &result{job: &jobs[i], skipped: true})
			r.mu.Unlock()
		}
	}
	close(ch)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Until(r.Deadline) + 45*time.Second):
		fmt.Println("the time is over; some jobs have not ended")
	}
	r.mu.Lock()
	r.results = append([]*result(nil), r.results...)
	r.late = len(r.results)
	r.mu.Unlock()
	<-laws
	if f := os.Getenv("VERIF_HEAP"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.WriteHeapProfile(w)
			w.Close()
		}
	}
	return r.report(jobs, time.Since(t0))
}

func (r *Run) over() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop || time.Now().After(r.Deadline)
}

func (w *worker) job(j *Job) (res *result) {
	r := w.r
	res = &result{job: j, covers: map[string]int{}, funcs: map[string]bool{}}
	res.stats.Unsupp = map[string]int{}
	res.stats.Bounds = map[string]int{}
	if r.over() {
		res.skipped = true
		return res
	}
	t0 := time.Now()
	defer func() {
		res.wall = time.Since(t0)
		if x := recover(); x != nil {
			res.err = fmt.Sprintf("engine: %v", x)
			fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", j.name(), x, debug.Stack())
			w.m = nil
		}
		r.logf("%-50s %6.2fs paths %d done %d bounded %d unsupp %d asserts %d/%d/%d unk %d queries %d complete %v %v %v certs %v diffs %d %s", j.name(), res.wall.Seconds(), res.stats.Paths,
			res.stats.Done, res.stats.Bounded, res.stats.Unsupported, res.stats.Asserts, res.stats.AssertNF, res.stats.AssertSMT, res.stats.AssertUnknown, res.queries, res.complete, res.stats.Unsupp, res.stats.Bounds, res.certs, res.diffs, res.err)
	}()
	m, err := w.machine(j)
	if err != nil {
		res.err = err.Error()
		return res
	}
	m.SetSymbolic()
	m.Cfg = j.C
	lim := j.Max
	if lim == 0 {
		lim = 60 * time.Second
	}
	m.Cfg.Deadline = time.Now().Add(lim)
	if r.Deadline.Before(m.Cfg.Deadline) {
		m.Cfg.Deadline = r.Deadline
	}
	fn := m.L.Harness(j.H)
	if fn == nil {
		res.err = "no harness " + j.H
		return res
	}
	m.Stats = interp.Stats{Unsupp: map[string]int{}, Bounds: map[string]int{}}
	m.Covers = res.covers
	m.Funcs = res.funcs
	q0, s0 := m.S.Stat.Queries, m.S.Stat.Time
	nv := 0
	seen := map[string]int{}
	m.Violation = func(v *interp.Violation) bool {
		nv++
		k := v.Kind + v.Msg + v.Stack
		if seen[k] >= 3 || r.over() {
			return false
		}
		seen[k]++
		w.confirm(j, m, v, res)
		if seen[k] >= 3 {
			m.Cfg.MaxPaths = 1 // enough
		}
		return false
	}
	n := 0
	res.complete = m.Explore(fn, []interp.Val{m.Ints(j.Cfg)}, func(pe *interp.PathEnd) {
		n++
		if n <= 1 || pe.Kind != "done" && n < 4 {
			res.samples = append(res.samples, fmt.Sprintf("%s: path %d: %s %s", j.name(), n, pe.Kind, pe.Msg))
		}
		if n%16 == 0 && r.over() {
			m.Cfg.Deadline = time.Now()
		}
	})
	res.stats = m.Stats
	res.queries, res.solver = m.S.Stat.Queries-q0, m.S.Stat.Time-s0
	if r.over() {
		return res
	}
	w.certify(m, res)
	w.differential(j, m, res)
	return res
}

// certify has the solver check the replacements behind the normal forms.
func (w *worker) certify(m *interp.Machine, res *result) {
	r := w.r
	for _, x := range m.C.Certificates() {
		r.mu.Lock()
		old := r.certs[x.Key]
		r.certs[x.Key] = true
		late := r.certTime > r.CertMax
		r.mu.Unlock()
		if old {
			res.certs[3]++
			continue
		}
		if late || r.over() {
			res.certs[1]++
			continue
		}
		if w.cs == nil || w.cs.Ctx().Stat.Terms > 200_000 {
			if w.cs != nil {
				w.cs.Close()
			}
			w.cs = sym.NewSolver(sym.NewCtx(), 4*time.Second, "z3-new", "-in")
		}
		t0 := time.Now()
		switch x.Prove(w.cs) {
		case sym.Unsat:
			res.certs[0]++
		case sym.Sat:
			res.certs[2]++
			res.err = "a normal form is not what the code computes"
		default:
			res.certs[1]++
		}
		res.queries++
		res.solver += time.Since(t0)
		r.mu.Lock()
		r.certTime += time.Since(t0)
		r.mu.Unlock()
	}
}

// differential compares executions by the engine with those of the compiled code.
func (w *worker) differential(j *Job, m *interp.Machine, res *result) {
	if j.NoN || j.Arch != "" && j.Arch != "amd64" {
		return
	}
	n := j.Diff
	if n == 0 {
		n = 1
	}
	if n < 0 {
		return
	}
	mode := ""
	v := variant(j)
	nr, err := w.runner(v, j.C.CPU)
	if err != nil {
		res.err = err.Error()
		return
	}
	fn := m.L.Harness(j.H)
	deadline := time.Now().Add(20 * time.Second)
	for i := 0; i < n; i++ {
		if w.r.over() || time.Now().After(deadline) {
			break
		}
		m.SetConcrete(j.C.Seed*1009 + int64(i) + 5)
		m.Cfg = j.C
		m.Cfg.Race = false
		m.Cfg.MaxPaths = 1
		m.Cfg.Deadline = time.Now().Add(10 * time.Second)
		m.Violation = nil
		var tape *interp.Tape
		var outs []interp.Out
		var end *interp.PathEnd
		m.Explore(fn, []interp.Val{m.Ints(j.Cfg)}, func(pe *interp.PathEnd) {
			end = pe
			tape = m.MakeTape(j.H, j.Cfg)
			outs = m.Outs
		})
		m.SetSymbolic()
		if end == nil || tape == nil {
			continue
		}
		tape.Mode = mode
		tape.CPU = j.C.CPU
		if end.Kind == "unsupported" || end.Kind == "bound" || end.Kind == "deadline" {
			tape.In, tape.Draws, tape.AES = nil, nil, nil
		}
		got, err := nr.Run(tape)
		if err != nil {
			res.err = err.Error()
			return
		}
		res.natives++
		bad := got.Violation
		if got.Crash != "" {
			bad = got.Crash
		}
		if got.Hang {
			bad = "the execution does not end"
		}
		if bad != "" {
			// a violation on the real code: run once more to be sure
			again, err := nr.Run(tape)
			if err == nil && (again.Violation != "" || again.Crash != "" || again.Hang) {
				w.r.report1(&Replay{Property: w.r.ID, Kind: "native", Msg: first(bad), Job: j.name(), Arch: j.Arch, Tags: j.Tags, CPU: j.C.CPU, Tape: tape, Native: bad})
				return
			}
		}
		switch end.Kind {
		case "done":
			if d := compare(outs, got); d != "" {
				res.mism = append(res.mism, fmt.Sprintf("%s: %s", j.name(), d))
				continue
			}
			res.diffs++
		case "assume":
			if got.Assumed {
				res.diffs++
			} else if bad == "" {
				res.mism = append(res.mism, fmt.Sprintf("%s: engine: assumption fails", j.name()))
			}
		case "violation":
			if bad == "" {
				res.mism = append(res.mism, fmt.Sprintf("%s: engine: %s", j.name(), end.Msg))
			}
		}
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func compare(outs []interp.Out, got *native.Result) string {
	if !got.Done {
		return fmt.Sprintf("native execution did not end: %q assumed %v", got.Violation, got.Assumed)
	}
	if len(outs) != len(got.Order) {
		return fmt.Sprintf("%d values put out, natively %d", len(outs), len(got.Order))
	}
	for i, o := range outs {
		k := fmt.Sprintf("%s#%d", o.Name, i)
		if got.Order[i] != k {
			return fmt.Sprintf("%s put out, natively %s", k, got.Order[i])
		}
		s := ""
		for _, c := range o.C {
			if c.T != nil {
				return k + " is symbolic"
			}
			s += fmt.Sprintf("%02x", byte(c.N))
		}
		if s != got.Out[k] {
			return fmt.Sprintf("%s is %s, natively %s", k, clip(s), clip(got.Out[k]))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// confirm tries to make the compiled code fail as the engine says.
func (w *worker) confirm(j *Job, m *interp.Machine, v *interp.Violation, res *result) {
	r := w.r
	rep := &Replay{Property: r.ID, Kind: v.Kind, Msg: v.Msg, Where: v.Stack, Job: j.name(), Arch: j.Arch, Tags: j.Tags, CPU: j.C.CPU}
	if v.Leak != nil {
		rep.Leak = v.Leak
		for _, t := range append(append([]*interp.Tape(nil), v.Leak.A...), v.Leak.B...) {
			t.Harness, t.Cfg, t.CPU = j.H, j.Cfg, j.C.CPU
		}
	} else {
		rep.Tape = m.MakeTape(j.H, j.Cfg)
	}
	if r.Verbose {
		b, _ := json.Marshal(rep.Tape)
		r.logf("%s: %s %s at %s tape %s", j.name(), v.Kind, v.Msg, v.Stack, clip2(string(b), 600))
	}
	w.confirms++
	if w.confirms > 40 {
		res.unconf = append(res.unconf, fmt.Sprintf("%s: %s: %s (not tried)", j.name(), v.Kind, v.Msg))
		return
	}
	ok, what := w.replay(rep)
	if !ok {
		res.unconf = append(res.unconf, fmt.Sprintf("%s: %s: %s at %s: %s", j.name(), v.Kind, v.Msg, v.Stack, first(what)))
		r.logf("unconfirmed: %s", what)
		return
	}
	rep.Native = what
	r.report1(rep)
}

func clip2(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func failed(got *native.Result) string {
	switch {
	case got.Violation != "":
		return got.Violation
	case got.Crash != "":
		return got.Crash
	case got.Hang:
		return "the execution does not end"
	}
	return ""
}

// replay runs the compiled code (or, for another processor, the engine) on a counterexample.
func (w *worker) replay(rep *Replay) (bool, string) {
	v := ""
	if rep.Tags != "" {
		v = "tags=" + rep.Tags
	}
	if rep.Arch != "" && rep.Arch != "amd64" {
		return w.replayEngine(rep)
	}
	if rep.Leak != nil {
		return w.replayLeak(rep, v)
	}
	n, err := w.runner(v, rep.CPU)
	if err != nil {
		return false, err.Error()
	}
	last := ""
	if rep.Kind != "race" {
		got, err := n.Run(rep.Tape)
		if err != nil {
			return false, err.Error()
		}
		if f := failed(got); f != "" {
			return true, f
		}
		last = fmt.Sprintf("done %v assumed %v mismatches %d", got.Done, got.Assumed, got.Mismatch)
		if len(rep.Tape.Sched) == 0 {
			return false, last
		}
	}
	// what depends on the schedule
	modes := []string{"stress", "race"}
	if rep.Kind == "race" {
		// the race detector does not see what assembly accesses
		modes = []string{"race", "racenoasm", "stress"}
	}
	for _, mode := range modes {
		if rep.Tags != "" {
			continue
		}
		n, err := w.runner(mode, rep.CPU)
		if err != nil {
			return false, err.Error()
		}
		t := *rep.Tape
		t.Mode = strings.TrimSuffix(mode, "noasm")
		end := time.Now().Add(12 * time.Second)
		for i := 0; i < 400 && time.Now().Before(end) && !w.r.over(); i++ {
			t.Procs = []int{4, 2, 8}[i%3]
			got, err := n.Run(&t)
			if err != nil {
				return false, err.Error()
			}
			if f := failed(got); f != "" {
				rep.Tape = &t
				return true, f
			}
		}
	}
	return false, last
}

// replayEngine executes the code in the engine on concrete values.
func (w *worker) replayEngine(rep *Replay) (bool, string) {
	l, err := w.r.load(rep.Arch, rep.Tags)
	if err != nil {
		return false, err.Error()
	}
	c := sym.NewCtx()
	s := sym.NewSolver(c, 5*time.Second, "z3-new", "-in")
	defer s.Close()
	m, err := interp.Start(l, c, s, interp.Config{CPU: rep.CPU, Seed: 1})
	if err != nil {
		return false, err.Error()
	}
	if rep.Leak != nil {
		return false, "not on this processor"
	}
	m.SetTape(rep.Tape)
	m.Cfg.MaxPaths = 1
	msg := ""
	m.Violation = func(v *interp.Violation) bool { msg = v.Kind + ": " + v.Msg; return false }
	m.Explore(l.Harness(rep.Tape.Harness), []interp.Val{m.Ints(rep.Tape.Cfg)}, func(pe *interp.PathEnd) {
		if pe.Kind == "violation" && msg == "" {
			msg = pe.Msg
		}
	})
	return msg != "", "concrete execution of the " + rep.Arch + " code in the engine: " + msg
}

func (w *worker) replayLeak(rep *Replay, v string) (bool, string) {
	n, err := w.runner(v, rep.CPU)
	if err != nil {
		return false, err.Error()
	}
	l := rep.Leak
	view := func(t *interp.Tape) []byte {
		got, err := n.Run(t)
		if err != nil || got.Violation != "" || got.Crash != "" || got.Hang {
			return nil
		}
		b := make([]byte, len(got.View)/2)
		for i := range b {
			x, _ := strconv.ParseUint(got.View[2*i:2*i+2], 16, 8)
			b[i] = byte(x)
		}
		return b
	}
	if l.At != nil {
		na, nb := 0, 0
		match := func(ts []*interp.Tape, n *int) bool {
			for _, t := range ts {
				b := view(t)
				if b == nil {
					return false
				}
				ok := true
				for i, at := range l.At {
					ok = ok && at < len(b) && b[at] == l.Val[i]
				}
				if ok {
					*n++
				}
			}
			return true
		}
		if !match(l.A, &na) || !match(l.B, &nb) {
			return false, "an execution failed"
		}
		return na > 8 && nb == 0, fmt.Sprintf("with the first secret %d of %d views contain %x at %v, with the second %d of %d", na, len(l.A), l.Val, l.At, nb, len(l.B))
	}
	parity := func(t *interp.Tape) int {
		b := view(t)
		if b == nil || len(b) != len(l.Mask) {
			return -1
		}
		p := 0
		for i := range b {
			p ^= bits.OnesCount8(b[i]&l.Mask[i]) & 1
		}
		return p
	}
	for _, t := range l.A {
		if p := parity(t); p != l.Par {
			return false, fmt.Sprintf("parity %d, expected %d", p, l.Par)
		}
	}
	other := 0
	for _, t := range l.B {
		p := parity(t)
		if p < 0 {
			return false, "an execution failed"
		}
		if p != l.Par {
			other++
		}
	}
	return other > 0, fmt.Sprintf("the bits %x of the view have parity %d in %d executions with one secret, but not in %d of %d with another", trimMask(l.Mask), l.Par, len(l.A), other, len(l.B))
}

func trimMask(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// report1 notes a confirmed violation.
func (r *Run) report1(rep *Replay) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.found = append(r.found, rep)
	if !r.known(rep) {
		r.stop = true
	}
}

// known says whether a finding is listed: "finding: property=<id> match=<regular expression> <what fails>".
func (r *Run) known(rep *Replay) bool {
	for _, k := range r.findings() {
		if k.re.MatchString(rep.Job + ": " + rep.Kind + ": " + rep.Msg + ": " + rep.Where) {
			return true
		}
	}
	return false
}

type finding struct {
	re   *regexp.Regexp
	what string
}

func (r *Run) findings() []finding {
	f, err := os.Open(filepath.Join(r.Verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var res []finding
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^finding: property=(\S+) match=(\S+) (.*)$`)
	for sc.Scan() {
		if g := re.FindStringSubmatch(sc.Text()); g != nil && g[1] == r.ID {
			if x, err := regexp.Compile(g[2]); err == nil {
				res = append(res, finding{x, g[3]})
			}
		}
	}
	return res
}

func (r *Run) report(jobs []Job, wall time.Duration) int {
	ev := filepath.Join(r.Verif, "evidence")
	os.MkdirAll(ev, 0o755)
	for _, f := range r.findings() {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, f.what)
	}
	viol := 0
	for _, rep := range r.found {
		if r.known(rep) {
			continue
		}
		viol++
		p := filepath.Join(ev, fmt.Sprintf("%s.violation%d.json", r.ID, viol))
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
		fmt.Printf("  %s: %s: %s\n  at %s\n  compiled code: %s\n", rep.Job, rep.Kind, rep.Msg, rep.Where, first(rep.Native))
	}
	r.evidence(ev, jobs, wall, viol)
	if viol > 0 {
		return 1
	}
	return 0
}

func (r *Run) evidence(dir string, jobs []Job, wall time.Duration, viol int) {
	var t interp.Stats
	t.Unsupp, t.Bounds = map[string]int{}, map[string]int{}
	covers, funcs := map[string]int{}, map[string]bool{}
	queries, complete, skipped, diffs, natives := 0, 0, 0, 0, 0
	var solver time.Duration
	var certs [4]int
	var mism, unconf, errs, incomplete, samples []string
	sort.SliceStable(r.results, func(a, b int) bool { return r.results[a].job.name() < r.results[b].job.name() })
	for _, x := range r.results {
		s := &x.stats
		t.Paths += s.Paths
		t.Done += s.Done
		t.Pruned += s.Pruned
		t.Bounded += s.Bounded
		t.Unsupported += s.Unsupported
		t.Infeasible += s.Infeasible
		t.Steps += s.Steps
		t.Asserts += s.Asserts
		t.AssertNF += s.AssertNF
		t.AssertSMT += s.AssertSMT
		t.AssertUnknown += s.AssertUnknown
		t.UnknownBranches += s.UnknownBranches
		t.Concretised += s.Concretised
		t.LeakCert += s.LeakCert
		t.LeakLinear += s.LeakLinear
		for k, n := range s.Unsupp {
			t.Unsupp[k] += n
		}
		for k, n := range s.Bounds {
			t.Bounds[k] += n
		}
		for k, n := range x.covers {
			covers[k] += n
		}
		for k := range x.funcs {
			funcs[k] = true
		}
		for i, n := range x.certs {
			certs[i] += n
		}
		queries += x.queries
		solver += x.solver
		diffs += x.diffs
		natives += x.natives
		mism = append(mism, x.mism...)
		unconf = append(unconf, x.unconf...)
		if x.err != "" {
			errs = append(errs, x.job.name()+": "+x.err)
		}
		if x.skipped {
			skipped++
		}
		if x.complete {
			complete++
		} else {
			incomplete = append(incomplete, x.job.name())
		}
		samples = append(samples, x.samples...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if r.badLaw != "" {
		errs = append(errs, "law of the field: "+r.badLaw)
	}
	var fs, js []string
	for f := range funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	lines := map[string]int{}
	for i := range jobs {
		if lines[jobs[i].Line]++; lines[jobs[i].Line] == 1 {
			js = append(js, jobs[i].Line)
		}
	}
	sort.Strings(js)
	for i, l := range js {
		js[i] = fmt.Sprintf("%s (%d jobs)", l, lines[l])
	}
	level := "model_checking"
	out := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": level,
		"coverage": map[string]any{
			"states": t.Paths, "transitions": t.Steps, "traces_validated_against_impl": diffs,
			"samples": samples, "exhaustive": complete == len(jobs) && t.Bounded == 0 && t.Unsupported == 0 && t.Concretised == 0,
			"functions_encoded": fs, "jobs": js, "jobs_complete": complete, "jobs_incomplete": incomplete, "jobs_skipped": skipped,
			"paths_done": t.Done, "paths_assumed_away": t.Pruned, "paths_infeasible": t.Infeasible, "paths_cut_at_bounds": t.Bounded, "paths_unsupported": t.Unsupported,
			"bounds_hit": t.Bounds, "unsupported": t.Unsupp,
			"assertions": t.Asserts, "assertions_by_normal_form": t.AssertNF, "assertions_by_smt": t.AssertSMT, "assertions_undecided": t.AssertUnknown,
			"branches_undecided": t.UnknownBranches, "values_fixed": t.Concretised,
			"secrecy_certificates_by_smt": t.LeakCert, "secrecy_by_linear_algebra_only": t.LeakLinear,
			"smt_queries": queries, "smt_time_s": solver.Seconds(), "reached": covers,
			"normal_form_rules_proved_by_smt": certs[0], "normal_form_rules_undecided": certs[1], "normal_form_rules_refuted": certs[2], "normal_form_rules_used_again": certs[3],
			"field_laws_proved_by_smt": r.laws,
			"native_executions":        natives, "native_disagreements": mism, "unconfirmed": unconf, "errors": errs,
		},
		"assumptions": Assumptions(r.ID), "wall_s": wall.Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(dir, r.ID+".json"), b, 0o644)
	fmt.Printf("%s %s: %d jobs (%d complete, %d skipped), %d paths, %d instructions, %d assertions (%d by normal form, %d by SMT, %d undecided), %d queries in %.1fs, %d of %d rules and %d laws of the normal form proved, %d executions compared, %.1fs\n",
		r.ID, r.Tier, len(jobs), complete, skipped, t.Paths, t.Steps, t.Asserts, t.AssertNF, t.AssertSMT, t.AssertUnknown, queries, solver.Seconds(), certs[0], certs[0]+certs[1]+certs[2], r.laws, diffs, wall.Seconds())
	show := func(h string, l []string) {
		for i, s := range l {
			if i == 8 {
				fmt.Printf("  %s: %d more\n", h, len(l)-i)
				break
			}
			fmt.Printf("  %s: %s\n", h, s)
		}
	}
	show("incomplete", incomplete)
	show("error", errs)
	show("engine and compiled code disagree", mism)
	show("not confirmed on the compiled code", unconf)
	for k, n := range t.Unsupp {
		fmt.Printf("  unsupported: %s (%d)\n", k, n)
	}
}

// ReplayFile runs a recorded violation again.
func ReplayFile(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rep := &Replay{}
	if err := json.Unmarshal(b, rep); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	r := &Run{ID: rep.Property, Repo: repo, Verif: verif, nat: native.NewBuilder(repo, dir), loaded: map[string]*loadOnce{}, Deadline: time.Now().Add(time.Hour)}
	w := &worker{r: r, natives: map[string]*native.Runner{}}
	defer w.close()
	ok, what := w.replay(rep)
	fmt.Println(what)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, file)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
