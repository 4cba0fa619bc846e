package interp

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

// LowMemory tells all machines to end the exploration at hand.
var LowMemory atomic.Bool

func (m *Machine) limits() {
	if LowMemory.Load() {
		m.end("deadline", "memory limit")
	}
	if m.Cfg.MaxSteps > 0 && m.steps > int64(m.Cfg.MaxSteps) {
		m.end("bound", "more than %d instructions", m.Cfg.MaxSteps)
	}
	if !m.Cfg.Deadline.IsZero() && time.Now().After(m.Cfg.Deadline) {
		m.end("deadline", "time limit")
	}
}

// pathViolation reports a violation on every value that reaches this place.
func (m *Machine) pathViolation(kind, msg string) {
	m.violation(kind, msg, m.C.True)
	m.end("violation", "%s", msg)
}

// violation reports that cond, which breaks the property, can hold. It returns false if it cannot.
func (m *Machine) violation(kind, msg string, cond *sym.Term) bool {
	weak := m.Weak
	ok := m.repair()
	if ok && !cond.IsTrue() && !m.holds(cond) {
		conds := m.slice(cond)
		r, env := m.solve(conds, sym.VarsOf(conds...))
		switch r {
		case sym.Unsat:
			return false
		case sym.Sat:
			m.overlay(env)
		default:
			ok = false
		}
	}
	if !ok {
		// try some values
		for i := 0; i < 200 && !ok; i++ {
			m.randomEnv()
			ok = m.holds(cond)
			for _, c := range m.pc {
				if !ok {
					break
				}
				ok = m.holds(c)
			}
		}
		if !ok {
			m.Stats.AssertUnknown++
			m.Stats.Unsupp["undecided: "+kind]++
			return false
		}
		m.envOK = true
	}
	v := &Violation{Msg: msg, Kind: kind, Events: m.events, Sched: append([]int(nil), m.schedLog...), M: m, Weak: weak}
	if m.cur != nil && len(m.cur.Frames) > 0 {
		v.Stack = m.where(m.cur)
	}
	if m.Violation != nil {
		m.Violation(v)
	}
	return true
}

func (m *Machine) randomEnv() {
	m.Env = map[*sym.Term]uint64{}
	for v, x := range m.fixed {
		m.Env[v] = x
	}
	m.memo = map[*sym.Term]uint64{}
}

// SkipInit is an error that goes away with another machine.
type SkipInit struct {
	Pkg string
	Err error
}

func (e *SkipInit) Error() string { return e.Err.Error() }

// Start makes a machine that has run the package initialisation. The initialisation of a library package that the
// engine cannot follow is left out; code that reads the variables it would have set finds them zero.
func Start(l *Loaded, c *sym.Ctx, s *sym.Solver, cfg Config) (*Machine, error) {
	for i := 0; ; i++ {
		m := NewMachine(l, c, s)
		m.Cfg = cfg
		err := m.Init()
		if err == nil {
			return m, nil
		}
		var k *SkipInit
		if !errors.As(err, &k) || i == 16 {
			return nil, err
		}
	}
}

// Init runs the package initialisation, once.
func (m *Machine) Init() error {
	if m.inited {
		return nil
	}
	m.resetPath()
	if p := m.L.pkgs["crypto/rand"]; p != nil {
		if g, ok := p.Members["Reader"].(*ssa.Global); ok {
			t := m.L.pkgs[modelPath].Type("CryptoReader").Type()
			m.global(g).C[0] = Val{P: &Iface{T: t, V: Val{P: []Val{}}}}
		}
	}
	pe := m.guard(func() {
		g := m.newGor()
		m.L.build(m.L.harness.Func("init"))
		m.startGor(g, &Closure{Fn: m.L.harness.Func("init")}, nil)
		m.schedule()
	})
	if pe != nil {
		err := fmt.Errorf("initialisation: %s: %s", pe.Kind, pe.Msg)
		// the initialisation of a library package may be left out
		if len(m.gors) > 0 {
			fs := m.gors[0].Frames
			for i := len(fs) - 1; i >= 0; i-- {
				p := fs[i].code.pkg
				if strings.HasPrefix(fs[i].code.name, p+".init") && !m.L.repo(p) && !strings.HasPrefix(p, base+"/zzverif") {
					m.L.mu.Lock()
					m.L.skipInit[p] = true
					m.L.mu.Unlock()
					return &SkipInit{p, err}
				}
			}
		}
		return err
	}
	m.inited = true
	return nil
}

func (m *Machine) resetPath() {
	m.gors, m.cur, m.nextG = nil, nil, nil
	m.pc, m.pcset = nil, map[*sym.Term]bool{}
	m.di = 0
	m.C.ClearSub()
	m.fixed, m.fixedOrder = map[*sym.Term]uint64{}, nil
	for _, g := range m.groupList {
		g.fixed = map[*sym.Term]uint64{}
	}
	m.Env, m.memo = map[*sym.Term]uint64{}, map[*sym.Term]uint64{}
	m.envOK = true
	m.models = map[*sym.Term]map[*sym.Term]uint64{}
	m.events = nil
	m.draws, m.uints, m.reads = 0, 0, 0
	m.ti, m.td, m.ts = 0, 0, 0
	m.choices = nil
	m.streamPos = map[string]int{}
	m.streamID = "0"
	m.inSeq = 0
	m.preempts = 0
	m.steps = 0
	m.clock = m.path * 1000
	m.pathAES = map[*aesApp]bool{}
	m.pathApps = nil
	m.Outs = nil
	m.obs = nil
	m.keys = nil
	m.onces = map[lockKey]*onceState{}
	m.locks = map[lockKey]*lockState{}
	m.pools = map[lockKey][]chanItem{}
	m.schedLog = nil
	m.Weak = false
	m.deferring = false
	m.align = nil
	if m.vcache == nil || len(m.vcache) > 200000 {
		m.vcache = map[*sym.Term][]*sym.Term{}
	}
	if m.qcache == nil || len(m.qcache) > 200000 {
		m.qcache = map[string]sym.Result{}
	}
	if m.mrng == nil {
		m.mrng = rand.New(rand.NewSource(m.Cfg.Seed + 77))
	}
	if m.rng == nil {
		m.rng = rand.New(rand.NewSource(m.Cfg.Seed + 1))
	}
}

func (m *Machine) guard(f func()) (pe *PathEnd) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*PathEnd); ok {
				pe = e
				return
			}
			where := ""
			if m.cur != nil && len(m.cur.Frames) > 0 {
				where = m.where(m.cur)
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine: %v at %s\n%s\n", x, where, debug.Stack())
			}
			pe = &PathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", x, where)}
		}
	}()
	f()
	return nil
}

// Explore runs fn on every path. It returns true if all have been explored.
func (m *Machine) Explore(fn *ssa.Function, args []Val, end func(pe *PathEnd)) bool {
	m.dec = nil
	m.rng = rand.New(rand.NewSource(m.Cfg.Seed*1000003 + 1))
	m.mrng = rand.New(rand.NewSource(m.Cfg.Seed*1000003 + 2))
	m.qcache, m.vcache = nil, nil
	m.path = 0
	for {
		m.rollback()
		m.epoch++
		m.resetPath()
		m.path++
		if m.Cfg.Race {
			m.clearRaces()
		}
		pe := m.guard(func() {
			g := m.newGor()
			var as []Val
			for _, a := range args {
				if s, ok := a.P.(*Slice); ok && s.Obj != nil {
					// arguments are made anew
					as = append(as, m.mkSlice(append([]Val(nil), s.Obj.C[s.Off:s.Off+s.Len]...), "cfg"))
					continue
				}
				as = append(as, a)
			}
			m.startGor(g, m.funcVal(fn), as)
			m.schedule()
		})
		m.Stats.Paths++
		m.Stats.Steps += m.steps
		if pe == nil {
			m.Stats.Done++
			pe = &PathEnd{Kind: "done"}
		} else {
			switch pe.Kind {
			case "assume":
				m.Stats.Pruned++
			case "infeasible":
				m.Stats.Infeasible++
			case "bound", "deadline":
				m.Stats.Bounded++
				m.Stats.Bounds[pe.Msg]++
			case "unsupported":
				m.Stats.Unsupported++
				m.Stats.Unsupp[pe.Msg]++
			}
		}
		if end != nil {
			end(pe)
		}
		if pe.Kind == "deadline" {
			return false
		}
		if pe.Kind == "stop" {
			return false
		}
		if !m.backtrack() {
			return true
		}
		if m.Cfg.MaxPaths > 0 && m.path >= m.Cfg.MaxPaths {
			m.Stats.Bounds["paths per job"]++
			return false
		}
		if !m.Cfg.Deadline.IsZero() && time.Now().After(m.Cfg.Deadline) {
			m.Stats.Bounds["time limit"]++
			return false
		}
	}
}

func (m *Machine) clearRaces() {
	for _, o := range m.globs {
		o.Race = nil
	}
}

// ---- draws and inputs ----

func (m *Machine) atom(key string, w uint8, lo, hi uint64, mk func() *VarInfo) *sym.Term {
	k := fmt.Sprintf("%s|%d|%d|%d", key, w, lo, hi)
	if t := m.atoms[k]; t != nil {
		return t
	}
	t := m.C.Var(w, key, lo, hi)
	vi := mk()
	vi.Key = key
	t.Info = vi
	m.atoms[k] = t
	return t
}

func (m *Machine) concRange(lo, hi uint64) uint64 {
	if lo == 0 && hi == ^uint64(0) {
		return m.crng.Uint64()
	}
	switch m.crng.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	}
	return lo + m.crng.Uint64()%(hi-lo+1)
}

func (m *Machine) drawBytes(n int) []Val {
	vs := make([]Val, n)
	ev := Event{Kind: "draw"}
	if m.Cfg.Draws > 0 && m.draws+n > m.Cfg.Draws {
		m.end("bound", "more than %d random bytes", m.Cfg.Draws)
	}
	m.draws += n
	if d := m.tapeDraw("draw", n); d != nil {
		for i := range vs {
			vs[i] = Val{N: d[i]}
		}
		return vs
	}
	for i := range vs {
		p := m.streamPos[m.streamID]
		m.streamPos[m.streamID]++
		if m.Concrete {
			vs[i] = Val{N: m.streamByte(p)}
			ev.T = append(ev.T, m.C.Const(8, vs[i].N))
			continue
		}
		t := m.atom(fmt.Sprintf("r%s.%d", m.streamID, p), 8, 0, 255, func() *VarInfo { return &VarInfo{Draw: true} })
		t2 := m.C.Subst(t)
		vs[i] = tv(t2)
		ev.T = append(ev.T, t)
	}
	m.events = append(m.events, ev)
	return vs
}

func (m *Machine) tapeDraw(kind string, n int) []uint64 {
	if m.tape == nil || m.td >= len(m.tape.Draws) || m.tape.Draws[m.td].Kind != kind || len(m.tape.Draws[m.td].V) != n {
		return nil
	}
	m.td++
	return m.tape.Draws[m.td-1].V
}

func (m *Machine) streamByte(p int) uint64 {
	k := fmt.Sprintf("%s.%d", m.streamID, p)
	if x, ok := m.cstream[k]; ok {
		return x
	}
	x := uint64(m.crng.Intn(256))
	if m.crng.Intn(10) == 0 {
		x = []uint64{0, 255, 254, 1}[m.crng.Intn(4)]
	}
	m.cstream[k] = x
	return x
}

func (m *Machine) drawPerm(n int) []Val {
	vs := make([]Val, n)
	ev := Event{Kind: "perm"}
	if d := m.tapeDraw("perm", n); d != nil {
		for i := range vs {
			vs[i] = Val{N: d[i]}
		}
		return vs
	}
	seq := m.streamPos[m.streamID+"p"]
	m.streamPos[m.streamID+"p"]++
	if m.Concrete {
		k := fmt.Sprintf("%s.%d.%d", m.streamID, seq, n)
		p, ok := m.cperm[k]
		if !ok {
			p = m.crng.Perm(n)
			m.cperm[k] = p
		}
		for i, x := range p {
			vs[i] = Val{N: uint64(x)}
			ev.T = append(ev.T, m.C.Const(8, uint64(x)))
		}
		m.events = append(m.events, ev)
		return vs
	}
	if n > 256 {
		m.unsupported("permutation of %d", n)
	}
	key := fmt.Sprintf("p%s.%d.%d", m.streamID, seq, n)
	var g *permGroup
	for i := range vs {
		t := m.atom(fmt.Sprintf("%s.%d", key, i), 8, 0, uint64(n-1), func() *VarInfo {
			if g == nil {
				g = &permGroup{fixed: map[*sym.Term]uint64{}}
				m.groupList = append(m.groupList, g)
			}
			return &VarInfo{Draw: true, Group: g}
		})
		if g != nil && len(g.vars) < n {
			g.vars = append(g.vars, t)
		}
		vs[i] = tv(m.C.ZExt(m.C.Subst(t), 64))
		ev.T = append(ev.T, t)
	}
	m.events = append(m.events, ev)
	return vs
}

// drawUint draws a number below n; 0 stands for 2^64.
func (m *Machine) drawUint(n uint64) Val {
	seq := m.streamPos[m.streamID+"u"]
	m.streamPos[m.streamID+"u"]++
	hi := n - 1
	ev := Event{Kind: "uint"}
	if m.uints++; m.Cfg.Uints > 0 && m.uints > m.Cfg.Uints {
		m.end("bound", "more than %d random numbers", m.Cfg.Uints)
	}
	if d := m.tapeDraw("uint", 1); d != nil && (n == 0 || d[0] < n) {
		return Val{N: d[0]}
	}
	if m.Concrete {
		k := fmt.Sprintf("u%s.%d.%d", m.streamID, seq, n)
		x, ok := m.cstream[k]
		if !ok {
			x = m.concRange(0, hi)
			m.cstream[k] = x
		}
		ev.T = append(ev.T, m.C.Const(64, x))
		m.events = append(m.events, ev)
		return Val{N: x}
	}
	if hi >= 256 && n&hi == 0 {
		// independent bytes
		bs := make([]*sym.Term, 8)
		for i := range bs {
			top := hi >> (8 * uint(i))
			if top == 0 {
				bs[i] = m.C.Const(8, 0)
				continue
			}
			bs[i] = m.atom(fmt.Sprintf("u%s.%d.%d.%d", m.streamID, seq, n, i), 8, 0, min(top, 255), func() *VarInfo { return &VarInfo{Draw: true} })
		}
		t := m.C.Cat(bs)
		ev.T = append(ev.T, t)
		m.events = append(m.events, ev)
		return tv(m.C.Subst(t))
	}
	w := uint8(64)
	if hi < 256 {
		w = 8
	}
	t := m.atom(fmt.Sprintf("u%s.%d.%d", m.streamID, seq, n), w, 0, hi, func() *VarInfo { return &VarInfo{Draw: true} })
	ev.T = append(ev.T, t)
	m.events = append(m.events, ev)
	return tv(m.C.ZExt(m.C.Subst(t), 64))
}

func init() {
	read := func(at int) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			s := sl(a[at])
			if s.Len > 0 {
				m.writeSlice(a[at], 0, m.drawBytes(s.Len))
			}
			return Val{P: []Val{{N: uint64(s.Len)}, {}}}, true
		}
	}
	reg("math/rand.Read", true, read(0))
	reg("crypto/rand.Read", true, read(0))
	perm := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		n := int(int64(m.concInt(a[0], 64, "size of a permutation")))
		if n < 0 {
			m.rtPanic(g, "makeslice: len out of range")
			return Val{}, false
		}
		return m.mkSlice(m.drawPerm(n), "perm"), true
	}
	regs(perm, "math/rand.Perm", "math/rand/v2.Perm")
	num := func(bits uint8, arg bool, signed bool) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			if !arg {
				if bits == 64 {
					return m.drawUint(0), true
				}
				return m.drawUint(1 << bits), true
			}
			w := m.LS.of(ci.argT[0]).w
			n := m.concInt(a[0], w, "range of a draw")
			if w < 64 {
				n = uint64(signExt(n, w))
			}
			if signed && int64(n) <= 0 || n == 0 {
				m.goPanic(g, Val{P: "invalid argument to Intn"}, "invalid argument to Intn")
				return Val{}, false
			}
			v := m.drawUint(n)
			if v.T != nil && w < 64 {
				return tv(m.C.Trunc(v.T, w)), true
			}
			return v, true
		}
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		regs(num(63, false, false), p+"Int63", p+"Int", p+"Int64")
		regs(num(64, false, false), p+"Uint64", p+"runtime_rand")
		regs(num(0, true, true), p+"Intn", p+"Int63n", p+"Int31n", p+"IntN", p+"Int64N", p+"Int32N")
		regs(num(0, true, false), p+"Uint64N", p+"UintN", p+"Uint32N")
	}
	trunc32 := func(bits uint8) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			v := m.drawUint(1 << bits)
			if v.T != nil {
				return tv(m.C.Trunc(v.T, 32)), true
			}
			return v, true
		}
	}
	regs(trunc32(32), "math/rand.Uint32", "math/rand/v2.Uint32")
	regs(trunc32(31), "math/rand.Int31", "math/rand/v2.Int32")
	reg("math/rand.Seed", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		if !m.inited {
			return Val{}, true
		}
		x := m.concInt(a[0], 64, "seed")
		m.streamID = fmt.Sprintf("s%d", int64(x))
		for _, k := range []string{"", "p", "u"} {
			delete(m.streamPos, m.streamID+k)
		}
		return Val{}, true
	})
}

// ---- tapes ----

type TapeDraw struct {
	Kind string
	V    []uint64
}

type TapeAES struct{ Key, In, Out []byte }

// Tape has the values of one execution; see package vt.
type Tape struct {
	Harness string
	Cfg     []int
	In      [][]uint64
	Draws   []TapeDraw
	AES     []TapeAES
	Seed    int64
	Mode    string
	CPU     string
	Procs   int
	Sched   []int
}

// MakeTape evaluates what the path took from outside under the current model.
func (m *Machine) MakeTape(harness string, cfg []int) *Tape {
	t := &Tape{Harness: harness, Cfg: cfg, CPU: m.Cfg.CPU, Seed: m.Cfg.Seed + 12345, Sched: append([]int(nil), m.choices...)}
	for _, e := range m.events {
		var v []uint64
		if e.N != nil {
			v = e.N
		}
		for _, x := range e.T {
			v = append(v, m.EnvVal(x))
		}
		if v == nil {
			v = []uint64{}
		}
		if e.Kind == "in" {
			t.In = append(t.In, v)
			continue
		}
		if e.Kind == "perm" {
			fixPerm(v)
		}
		t.Draws = append(t.Draws, TapeDraw{e.Kind, v})
	}
	for _, a := range m.pathApps {
		ta := TapeAES{}
		for _, x := range a.key {
			ta.Key = append(ta.Key, byte(m.EnvVal(x)))
		}
		for _, x := range a.in {
			ta.In = append(ta.In, byte(m.EnvVal(x)))
		}
		for _, x := range a.out {
			ta.Out = append(ta.Out, byte(m.EnvVal(x)))
		}
		t.AES = append(t.AES, ta)
	}
	return t
}

// fixPerm completes a permutation some of whose values clash.
func fixPerm(v []uint64) {
	seen := map[uint64]bool{}
	var dup []int
	for i, x := range v {
		if x >= uint64(len(v)) || seen[x] {
			dup = append(dup, i)
			continue
		}
		seen[x] = true
	}
	next := uint64(0)
	for _, i := range dup {
		for seen[next] {
			next++
		}
		v[i] = next
		seen[next] = true
	}
}

// Funcs executed, sorted.
func (m *Machine) FuncList() []string {
	var r []string
	for f := range m.Funcs {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}

// Ints makes a slice of integers.
func (m *Machine) Ints(x []int) Val {
	vs := make([]Val, len(x))
	for i, v := range x {
		vs[i] = Val{N: uint64(v)}
	}
	return m.mkSlice(vs, "cfg")
}
