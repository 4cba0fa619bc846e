package interp

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

// Config selects how one exploration treats what is symbolic.
type Config struct {
	Conc     bool   // draws that decide control flow or memory rows get one (seeded) value
	CPU      string // features the code under test sees: avx2, ssse3, sse2, none
	Seed     int64
	Race     bool
	Preempt  int // preemptions per schedule
	Uints    int // random numbers per path, at most; 0 is no limit
	Reads    int // reads from generators per path, at most; 0 is no limit
	Draws    int // random bytes drawn per path, at most; 0 is no limit
	MaxPaths int
	MaxSteps int
	NoMerge  bool // branches are never merged
	Deadline time.Time
	NoSched  bool // run goroutines one after another
}

// cpu is the set of features and the number of processors.
func (c *Config) cpu() (string, int) {
	name, n, ok := strings.Cut(c.CPU, ":")
	if !ok {
		return name, 1
	}
	k, _ := strconv.Atoi(n)
	return name, max(k, 1)
}

func (m *Machine) emptyIface() types.Type {
	if m.iface0 == nil {
		m.iface0 = types.NewInterfaceType(nil, nil)
	}
	return m.iface0
}

type Gor struct {
	ID     int
	Frames []*Frame
	State  gstate
	Panic  *panicking
	VC     vclock
	Wait   *waitInfo
	Result Val
	blocks int
	Atomic bool
	timer  bool // waits until no other can go on
	skip   bool // the operation at hand was already offered as a scheduling point
	yield  bool
}

type gstate uint8

const (
	gRun gstate = iota
	gBlocked
	gDone
)

type waitInfo struct {
	what  string
	ready func() bool // polled
	w     []*waiter
	done  bool
	wk    *waiter
	chans []*ChanObj
}

type panicking struct {
	V         Val
	Recovered bool
	Msg       string
	Where     string
}

type deferred struct {
	fn   Val // closure
	intr *Intrinsic
	bi   string
	args []Val
	ci   *callInfo
}

type Frame struct {
	code   *Code
	regs   []Val
	blk    int32
	pc     int
	ins    *Ins // the call instruction of the caller (in the caller's frame), nil for deferred calls
	defers []deferred
	isDef  bool       // this frame runs a deferred call
	pan    *panicking // the panic on behalf of which it runs
	onRet  func(Val)
	rest   func()           // what follows the remaining deferred calls
	try    func(msg string) // the frame of a function whose panics are caught
}

type decision struct {
	val  int
	n    int // number of alternatives left to try after val
	u    uint64
	kind byte
}

type PathEnd struct {
	Kind string // done, assume, infeasible, bound, unsupported, violation, deadlock
	Msg  string
}

type undo struct {
	o   *Object
	i   int
	v   Val
	f   func()
	ver int
}

type Machine struct {
	L      *Loaded
	C      *sym.Ctx
	S      *sym.Solver
	LS     *layouts
	Cfg    Config
	codes  map[*ssa.Function]*Code
	fvals  map[*ssa.Function]*Closure
	globs  map[*ssa.Global]*Object
	mcache map[mkey]*ssa.Function
	acache map[akey]bool
	names  map[string]*ssa.Function
	epoch  int
	undo   []undo
	nobj   int
	inited bool

	// path
	gors                []*Gor
	cur                 *Gor
	pc                  []*sym.Term
	pcset               map[*sym.Term]bool
	dec                 []decision
	di                  int
	rng                 *rand.Rand
	Env                 map[*sym.Term]uint64 // a model of pc, if envOK
	envOK               bool
	events              []Event
	draws, uints, reads int
	streams             map[int]int
	stream              int
	steps               int64
	exploring           bool // both sides of a branch are being executed to be merged
	preempts            int
	atoms               map[string]*sym.Term // across paths
	aesApps             []*aesApp
	pathAES             map[*aesApp]bool
	aesByKey            map[string]*aesApp
	groups              int
	Outs                []Out
	Covers              map[string]int
	onces               map[lockKey]*onceState
	locks               map[lockKey]*lockState
	fresh               map[string]int
	schedLog            []int

	freeRegs  map[int][][]Val
	Violation func(v *Violation) bool // reports; true to go on with the path
	Stats     Stats
	Weak      bool
	Funcs     map[string]bool // functions of the code under test that were executed
	Reach     map[string]int
	ctxInputs int
	trace     bool
	lin       map[*sym.Term]bool

	fixed       map[*sym.Term]uint64
	fixedOrder  []*sym.Term
	vcache      map[*sym.Term][]*sym.Term
	models      map[*sym.Term]map[*sym.Term]uint64 // of conditions just checked
	qcache      map[string]sym.Result
	mrng        *rand.Rand
	iteW        uint8
	deferring   bool
	nextG       *Gor
	memo        map[*sym.Term]uint64 // values under Env
	ver         int
	groupList   []*permGroup
	pools       map[lockKey][]chanItem
	iface0      types.Type
	smaps       map[lockKey]*MapObj
	clock       int
	cpuAsked    bool
	streamPos   map[string]int
	streamID    string
	inSeq       int
	obs         []Val
	keys        [][]Val // given to ciphers
	path        int
	Concrete    bool // all inputs and draws get one random value
	crng        *rand.Rand
	start       time.Time
	secretPaths map[string]*leakSeen
	certified   map[string]bool
	path0       string
	goMain      *Gor
	pathApps    []*aesApp
	align       map[*Object]int
	cstream     map[string]uint64
	tape        *Tape // values to follow, in concrete mode
	ti, td, ts  int
	choices     []int // scheduling choices
	cperm       map[string][]int
}

type Stats struct {
	Paths, Done, Pruned, Bounded, Unsupported, Infeasible int
	Steps                                                 int64
	Decisions, Forks                                      int
	Merges, MergesTried                                   int
	Asserts, AssertNF, AssertSMT, AssertUnknown, Expanded int
	UnknownBranches                                       int
	Unsupp                                                map[string]int
	Bounds                                                map[string]int
	Concretised                                           int
	Schedules                                             int
	LeakCert, LeakLinear                                  int
}

// Event is a value that came from outside, in order.
type Event struct {
	Kind string // in, choice, draw, perm, uint
	Str  int    // stream of draws
	T    []*sym.Term
	N    []uint64
	Name string
}

type Out struct {
	Name string
	C    []Val
}

type Violation struct {
	Msg    string
	Kind   string
	Env    map[*sym.Term]uint64
	Events []Event
	Sched  []int
	Stack  string
	M      *Machine
	Weak   bool
	Leak   *Leak
}

type mkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type akey struct{ a, b types.Type }

func NewMachine(l *Loaded, c *sym.Ctx, s *sym.Solver) *Machine {
	m := &Machine{L: l, C: c, S: s, LS: &layouts{m: map[types.Type]*layout{}}}
	m.codes = map[*ssa.Function]*Code{}
	m.fvals = map[*ssa.Function]*Closure{}
	m.globs = map[*ssa.Global]*Object{}
	m.smaps = map[lockKey]*MapObj{}
	m.mcache = map[mkey]*ssa.Function{}
	m.acache = map[akey]bool{}
	m.atoms = map[string]*sym.Term{}
	m.aesByKey = map[string]*aesApp{}
	m.freeRegs = map[int][][]Val{}
	m.Funcs = map[string]bool{}
	m.Reach = map[string]int{}
	m.Covers = map[string]int{}
	m.Stats.Unsupp = map[string]int{}
	m.Stats.Bounds = map[string]int{}
	return m
}

func (m *Machine) end(kind, format string, a ...any) {
	if m.exploring {
		panic(mergeAbort{})
	}
	panic(&PathEnd{kind, fmt.Sprintf(format, a...)})
}

func (m *Machine) unsupported(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if m.cur != nil && len(m.cur.Frames) > 0 {
		msg += " in " + m.cur.Frames[len(m.cur.Frames)-1].code.name
	}
	m.end("unsupported", "%s", msg)
}

// ---- objects ----

func (m *Machine) newObj(t types.Type, name string) *Object {
	n := m.LS.of(t).n
	o := m.newCells(n, name)
	o.Typ = t
	m.LS.fillZero(t, o.C)
	return o
}

func (m *Machine) newCells(n int, name string) *Object {
	m.nobj++
	return &Object{ID: m.nobj, C: make([]Val, n), Epoch: m.epoch, Name: name}
}

func (m *Machine) newArray(elem types.Type, n int, name string) *Object {
	l := m.LS.of(elem)
	o := m.newCells(n*l.n, name)
	if m.LS.needsFill(elem) {
		for i := 0; i < n; i++ {
			m.LS.fillZero(elem, o.C[i*l.n:(i+1)*l.n])
		}
	}
	return o
}

func (m *Machine) global(g *ssa.Global) *Object {
	if o := m.globs[g]; o != nil {
		return o
	}
	o := m.newObj(deref(g.Type()), g.String())
	o.Epoch = 0
	m.globs[g] = o
	return o
}

func (m *Machine) set(o *Object, i int, v Val) {
	if o.Epoch != m.epoch {
		m.undo = append(m.undo, undo{o: o, i: i, v: o.C[i], ver: o.Ver})
	}
	m.ver++
	o.Ver = m.ver
	o.C[i] = v
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			u.o.C[u.i] = u.v
			u.o.Ver = u.ver
			u.o.Race = nil
		}
	}
	m.undo = m.undo[:0]
}

// touchMap records a map for rollback.
func (m *Machine) touchMap(mp *MapObj) {
	if mp.Epoch == m.epoch {
		return
	}
	old := *mp
	old.E = append([]mapEnt(nil), mp.E...)
	idx := map[string]int{}
	for k, v := range mp.Idx {
		idx[k] = v
	}
	old.Idx = idx
	ep := mp.Epoch
	mp.Epoch = m.epoch
	m.undo = append(m.undo, undo{f: func() { *mp = old; mp.Epoch = ep }})
}

func (m *Machine) touchChan(c *ChanObj) {
	if c.Epoch == m.epoch {
		return
	}
	old := *c
	old.Buf = append([]chanItem(nil), c.Buf...)
	ep := c.Epoch
	c.Epoch = m.epoch
	m.undo = append(m.undo, undo{f: func() { *c = old; c.Epoch = ep }})
}

// ---- terms ----

func (m *Machine) tm(v Val, w uint8) *sym.Term {
	if v.T != nil {
		return m.C.Subst(v.T)
	}
	return m.C.Const(w, v.N)
}

func (m *Machine) tb(v Val) *sym.Term {
	if v.T != nil {
		return m.C.Subst(v.T)
	}
	return m.C.Bool(v.N != 0)
}

func tv(t *sym.Term) Val {
	if t.IsConst() {
		return Val{N: t.Val}
	}
	return Val{T: t}
}

// canon brings a byte that is a function of one or two bytes into canonical form.
func (m *Machine) canon(v Val) Val {
	if v.T == nil || v.T.W != 8 || m.C.Raw {
		return v
	}
	return tv(m.C.CanonNZ(v.T, m.nonZero))
}

// nonZero says whether a byte cannot be zero on this path.
func (m *Machine) nonZero(t *sym.Term) bool {
	z := m.C.Eq(t, m.C.Const(8, 0))
	if z.IsFalse() || m.pcset[m.C.Not(z)] {
		return true
	}
	return !z.IsTrue() && m.check(z) == sym.Unsat
}

// norm applies substitutions to a value.
func (m *Machine) norm(v Val) Val {
	if v.T != nil {
		return tv(m.C.Subst(v.T))
	}
	return v
}

// ---- memory ----

func (m *Machine) loadCells(p Val, n int) []Val {
	r := make([]Val, n)
	switch q := p.P.(type) {
	case *Object:
		if m.Cfg.Race {
			m.raceRead(q, int(p.N), n)
		}
		copy(r, q.C[p.N:int(p.N)+n])
	case *SPtr:
		for i := range r {
			r[i] = m.loadSym(q, i)
		}
	case *WPtr:
		for i := range r {
			r[i] = m.wide(q, int(p.N)+i*int(q.W)/8, nil)
		}
	default:
		m.unsupported("load through %T", p.P)
	}
	return r
}

func (m *Machine) storeCells(p Val, vs []Val) {
	switch q := p.P.(type) {
	case *Object:
		if m.Cfg.Race {
			m.raceWrite(q, int(p.N), len(vs))
		}
		for i, v := range vs {
			m.set(q, int(p.N)+i, v)
		}
	case *SPtr:
		for i, v := range vs {
			m.storeSym(q, i, v)
		}
	case *WPtr:
		for i, v := range vs {
			m.wide(q, int(p.N)+i*int(q.W)/8, &v)
		}
	default:
		m.unsupported("store through %T", p.P)
	}
}

// wide reads or writes an integer over bytes, little endian.
func (m *Machine) wide(q *WPtr, at int, v *Val) Val {
	n := int(q.W) / 8
	if at < 0 || at+n > len(q.O.C) {
		m.unsupported("wide access past the end of an object")
	}
	if v != nil {
		if m.Cfg.Race {
			m.raceWrite(q.O, at, n)
		}
		t := m.tm(*v, q.W)
		for i := 0; i < n; i++ {
			m.set(q.O, at+i, tv(m.C.Byte(t, i)))
		}
		return Val{}
	}
	if m.Cfg.Race {
		m.raceRead(q.O, at, n)
	}
	bs := make([]*sym.Term, n)
	for i := range bs {
		bs[i] = m.tm(q.O.C[at+i], 8)
	}
	return tv(m.C.Cat(bs))
}

type tabKey struct {
	off, s1, c1, s2, c2 int
	w                   uint8
}

// simplify drops dimensions whose index is constant.
func (m *Machine) simpDims(off int, dims []Dim) (int, []Dim) {
	var r []Dim
	for _, d := range dims {
		t := m.C.Subst(d.Idx)
		if t.IsConst() {
			off += int(t.Val) * d.Stride
			continue
		}
		r = append(r, Dim{t, d.Stride, d.Count})
	}
	return off, r
}

func (m *Machine) loadSym(p *SPtr, at int) Val {
	off, dims := m.simpDims(p.Off+at, p.Dims)
	o := p.Obj
	if len(dims) == 0 {
		if m.Cfg.Race {
			m.raceRead(o, off, 1)
		}
		return o.C[off]
	}
	if c := o.chain; c != nil && c.ver == o.Ver && len(dims) == 1 && !m.Cfg.Race {
		d := dims[0]
		for e := c; ; e = e.prev {
			if e == nil {
				return m.loadChain(c, off, d)
			}
			if e.off != off || e.dim.Stride != d.Stride || e.dim.Count != d.Count {
				break
			}
		}
	}
	return m.loadDims(o, off, dims)
}

func (m *Machine) loadChain(c *chain, off int, d Dim) Val {
	if c.prev == nil {
		return m.loadStored(c, m.loadDims(c.base, off, []Dim{d}), d)
	}
	return m.loadStored(c, m.loadChain(c.prev, off, d), d)
}

func (m *Machine) loadStored(c *chain, rest Val, d Dim) Val {
	return m.ite(m.C.Eq(m.C.Subst(c.dim.Idx), d.Idx), c.v, rest)
}

func (m *Machine) loadDims(o *Object, off int, dims []Dim) Val {
	if len(dims) == 0 {
		return o.C[off]
	}
	if len(dims) > 2 {
		m.unsupported("memory place with %d symbolic indices", len(dims))
	}
	if len(dims) == 2 {
		if t := m.table2(o, off, dims); t != nil {
			ix := m.C.Cat([]*sym.Term{m.C.Byte(dims[1].Idx, 0), m.C.Byte(dims[0].Idx, 0)})
			return m.canon(tv(m.C.Sel(t, ix)))
		}
	}
	if len(dims) == 1 {
		if t := m.table1(o, off, dims[0]); t != nil {
			return m.canon(tv(m.C.Sel(t, dims[0].Idx)))
		}
	}
	d := dims[0]
	lo, hi := int(d.Idx.Lo), int(d.Idx.Hi)
	if hi >= d.Count {
		hi = d.Count - 1
	}
	if hi-lo > 4096 {
		m.unsupported("symbolic index over %d places", hi-lo)
	}
	var res Val
	first := true
	for i := hi; i >= lo; i-- {
		if uint64(i)&^d.Idx.Ones != 0 {
			continue
		}
		if m.Cfg.Race && len(dims) == 1 {
			m.raceRead(o, off+i*d.Stride, 1)
		}
		v := m.loadDims(o, off+i*d.Stride, dims[1:])
		if first {
			res, first = v, false
			continue
		}
		res = m.ite(m.C.Eq(d.Idx, m.C.Const(64, uint64(i))), v, res)
	}
	return res
}

// ite merges two scalar values.
func (m *Machine) ite(c *sym.Term, a, b Val) Val {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.P == nil && b.P == nil {
		if a.T == nil && b.T == nil {
			if a.N == b.N {
				return a
			}
		}
		w := uint8(0)
		switch {
		case a.T != nil:
			w = a.T.W
		case b.T != nil:
			w = b.T.W
		default:
			// two constants of unknown width
			w = m.iteW
		}
		if w == 255 {
			m.unsupported("merge of constants of unknown type")
		}
		return tv(m.C.Ite(c, m.tm2(a, w), m.tm2(b, w)))
	}
	if a.T == nil && b.T == nil && a.N == b.N && samePtr(a.P, b.P) {
		return a
	}
	// decide
	if m.decide(c) {
		return a
	}
	return b
}

func (m *Machine) tm2(v Val, w uint8) *sym.Term {
	if w == 0 {
		return m.tb(v)
	}
	return m.tm(v, w)
}

func samePtr(a, b any) bool {
	defer func() { recover() }()
	return a == b
}

func constCell(v Val) bool { return v.T == nil && v.P == nil }

func (m *Machine) table1(o *Object, off int, d Dim) *sym.Table {
	k := tabKey{off, d.Stride, d.Count, 0, 0, m.iteW}
	if t, ok := o.tabs[k]; ok && o.tabVer == o.Ver {
		return t
	}
	for i := 0; i < d.Count; i++ {
		if !constCell(o.C[off+i*d.Stride]) {
			return nil
		}
	}
	vals := make([]uint64, d.Count)
	for i := range vals {
		vals[i] = o.C[off+i*d.Stride].N
	}
	if m.iteW == 255 || m.iteW == 0 {
		return nil
	}
	t := m.C.NewTable(m.iteW, vals)
	m.cacheTab(o, k, t)
	return t
}

func (m *Machine) cacheTab(o *Object, k tabKey, t *sym.Table) {
	if o.tabs == nil || o.tabVer != o.Ver {
		o.tabs = map[tabKey]*sym.Table{}
		o.tabVer = o.Ver
	}
	o.tabs[k] = t
}

func (m *Machine) table2(o *Object, off int, dims []Dim) *sym.Table {
	a, b := dims[0], dims[1]
	if a.Count > 256 || b.Count > 256 || m.iteW == 255 || m.iteW == 0 {
		return nil
	}
	k := tabKey{off, a.Stride, a.Count, b.Stride, b.Count, m.iteW}
	if t, ok := o.tabs[k]; ok && o.tabVer == o.Ver {
		return t
	}
	vals := make([]uint64, a.Count*256)
	for i := 0; i < a.Count; i++ {
		for j := 0; j < b.Count; j++ {
			c := o.C[off+i*a.Stride+j*b.Stride]
			if !constCell(c) {
				return nil
			}
			vals[i*256+j] = c.N
		}
	}
	t := m.C.NewTable(m.iteW, vals)
	m.cacheTab(o, k, t)
	return t
}

func (m *Machine) storeSym(p *SPtr, at int, v Val) {
	off, dims := m.simpDims(p.Off+at, p.Dims)
	for len(dims) > 0 && m.Cfg.Conc && m.allDraws(dims[0].Idx) {
		m.concretise(dims[0].Idx)
		off, dims = m.simpDims(off, dims)
	}
	o := p.Obj
	var ch *chain
	if len(dims) == 1 && !m.Cfg.Race && len(o.C) <= 1<<14 {
		ch = &chain{off: off, dim: dims[0], v: v, n: 1}
		if c := o.chain; c != nil && c.ver == o.Ver && c.n < 64 {
			ch.prev, ch.base, ch.n = c, c.base, c.n+1
		} else {
			m.ver++
			ch.base = &Object{C: append([]Val(nil), o.C...), Typ: o.Typ, Epoch: o.Epoch, Ver: m.ver}
		}
		defer func() { ch.ver, o.chain = o.Ver, ch }()
	}
	var rec func(off int, dims []Dim, c *sym.Term)
	rec = func(off int, dims []Dim, c *sym.Term) {
		if len(dims) == 0 {
			if m.Cfg.Race {
				m.raceWrite(o, off, 1)
			}
			m.set(o, off, m.ite(c, v, o.C[off]))
			return
		}
		d := dims[0]
		hi := int(d.Idx.Hi)
		if hi >= d.Count {
			hi = d.Count - 1
		}
		if hi > 4096 {
			m.unsupported("symbolic store over %d places", hi)
		}
		for i := int(d.Idx.Lo); i <= hi; i++ {
			if uint64(i)&^d.Idx.Ones != 0 {
				continue
			}
			rec(off+i*d.Stride, dims[1:], m.C.And(c, m.C.Eq(d.Idx, m.C.Const(64, uint64(i)))))
		}
	}
	rec(off, dims, m.C.True)
}

// ptrAdd moves a pointer by cells.
func (m *Machine) ptrAdd(p Val, n int) Val {
	switch q := p.P.(type) {
	case *Object:
		return Val{P: q, N: p.N + uint64(n)}
	case *SPtr:
		return Val{P: &SPtr{q.Obj, q.Off + n, q.Dims}}
	}
	m.unsupported("pointer arithmetic on %T", p.P)
	return Val{}
}

func (m *Machine) ptrDim(p Val, idx *sym.Term, stride, count int) Val {
	switch q := p.P.(type) {
	case *Object:
		return Val{P: &SPtr{q, int(p.N), []Dim{{idx, stride, count}}}}
	case *SPtr:
		return Val{P: &SPtr{q.Obj, q.Off, append(append([]Dim(nil), q.Dims...), Dim{idx, stride, count})}}
	}
	m.unsupported("pointer arithmetic on %T", p.P)
	return Val{}
}

// sliceAt is a pointer to the cell of element i.
func (s *Slice) at(i int) Val {
	off := s.Off + i*s.Stride
	if len(s.Dims) > 0 {
		return Val{P: &SPtr{s.Obj, off, s.Dims}}
	}
	return Val{P: s.Obj, N: uint64(off)}
}

func sl(v Val) *Slice {
	if v.P == nil {
		return &Slice{Stride: 1}
	}
	return v.P.(*Slice)
}

// bytesOf reads the cells of a slice of one-cell elements.
func (m *Machine) readSlice(v Val, w uint8) []Val {
	s := sl(v)
	r := make([]Val, s.Len)
	if s.Len == 0 {
		return r
	}
	m.iteW = w
	if len(s.Dims) == 0 {
		if m.Cfg.Race {
			m.raceRead(s.Obj, s.Off, s.Len*s.Stride)
		}
		copy(r, s.Obj.C[s.Off:s.Off+s.Len])
		return r
	}
	for i := range r {
		r[i] = m.loadCells(s.at(i), 1)[0]
	}
	return r
}

func (m *Machine) writeSlice(v Val, at int, vs []Val) {
	s := sl(v)
	if len(vs) == 0 {
		return
	}
	if len(s.Dims) == 0 {
		if m.Cfg.Race {
			m.raceWrite(s.Obj, s.Off+at, len(vs))
		}
		for i, x := range vs {
			m.set(s.Obj, s.Off+at+i, x)
		}
		return
	}
	for i, x := range vs {
		m.storeCells(s.at(at+i), []Val{x})
	}
}

func (m *Machine) mkSlice(vs []Val, name string) Val {
	o := m.newCells(len(vs), name)
	copy(o.C, vs)
	return Val{P: &Slice{Obj: o, Len: len(vs), Cap: len(vs), Stride: 1}}
}

// ---- draws, concretisation ----

type VarInfo struct {
	Draw   bool
	Input  bool
	Secret bool
	AES    *aesApp
	Byte   int
	Group  *permGroup
	Key    string
}

type permGroup struct {
	vars  []*sym.Term
	fixed map[*sym.Term]uint64
	path  int
}

func info(v *sym.Term) *VarInfo {
	if i, ok := v.Info.(*VarInfo); ok {
		return i
	}
	return nil
}

func (m *Machine) allDraws(t *sym.Term) bool {
	if t.IsConst() || t.NVars > 4000 {
		return false
	}
	vs := sym.VarsOf(t)
	for _, v := range vs {
		i := info(v)
		if i == nil || !i.Draw {
			return false
		}
	}
	return len(vs) > 0
}

// concretise gives all variables of t a value that fits the path so far.
func (m *Machine) concretise(t *sym.Term) {
	for _, v := range sym.VarsOf(m.C.Subst(t)) {
		m.concretiseVar(v)
	}
}

func (m *Machine) concretiseVar(v *sym.Term) {
	if m.exploring {
		panic(mergeAbort{})
	}
	m.Stats.Concretised++
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		if d.kind != 'v' {
			panic("decision mismatch")
		}
		m.di++
		m.fix(v, d.u)
		return
	}
	m.repair()
	free := m.unconstrained(v)
	try := func(x uint64) bool {
		if x < v.Lo || x > v.Hi {
			return false
		}
		if in := info(v); in != nil && in.Group != nil {
			for _, y := range in.Group.fixed {
				if y == x {
					return false
				}
			}
		}
		if free {
			return true
		}
		r := m.check(m.C.Eq(v, m.C.Const(v.W, x)))
		return r == sym.Sat
	}
	pick := func() uint64 {
		switch m.rng.Intn(6) {
		case 0:
			return v.Lo
		case 1:
			return v.Hi
		}
		span := v.Hi - v.Lo
		if span == ^uint64(0) {
			return m.rng.Uint64()
		}
		return v.Lo + m.rng.Uint64()%(span+1)
	}
	x := uint64(0)
	ok := false
	for i := 0; i < 24 && !ok; i++ {
		x = pick()
		ok = try(x)
	}
	if !ok {
		conds := m.sliceVars([]*sym.Term{v})
		vs := sym.VarsOf(append(append([]*sym.Term(nil), conds...), v)...)
		res, env := m.solve(conds, vs)
		if res != sym.Sat {
			m.end("infeasible", "no value for %s", v.Name)
		}
		x = env[v]
	}
	m.dec = append(m.dec, decision{kind: 'v', u: x})
	m.di++
	m.fix(v, x)
}

// unconstrained: nothing has been assumed of v or of undecided members of its permutation.
func (m *Machine) unconstrained(v *sym.Term) bool {
	in := info(v)
	for _, c := range m.pc {
		for _, u := range m.varsOf(c) {
			if u == v {
				return false
			}
			if in != nil && in.Group != nil {
				if j := info(u); j != nil && j.Group == in.Group {
					if _, fixed := in.Group.fixed[u]; !fixed {
						return false
					}
				}
			}
		}
	}
	return true
}

func (m *Machine) fix(v *sym.Term, x uint64) {
	m.C.SetSub(v, x)
	if in := info(v); in != nil && in.Group != nil {
		in.Group.fixed[v] = x
	}
	if y, ok := m.Env[v]; !ok || y != x {
		m.overlay(map[*sym.Term]uint64{v: x})
		if ok {
			m.envOK = false
		}
	}
	m.fixed[v] = x
	m.fixedOrder = append(m.fixedOrder, v)
	// the conditions so far
	var pc []*sym.Term
	ps := map[*sym.Term]bool{}
	for _, c := range m.pc {
		d := m.C.Subst(c)
		if d.IsTrue() {
			continue
		}
		if !ps[d] {
			pc = append(pc, d)
			ps[d] = true
		}
	}
	m.pc, m.pcset = pc, ps
}

// ---- path conditions ----

func (m *Machine) assume(c *sym.Term) {
	if c.IsTrue() || m.pcset[c] {
		return
	}
	if m.exploring {
		panic(mergeAbort{})
	}
	if c.Op == sym.OpBAnd {
		if env := m.models[c]; env != nil && m.envOK && !m.holds(c) {
			m.overlay(env)
		}
		for _, x := range c.A {
			m.assume(x)
		}
		return
	}
	if c.Op == sym.OpEq && c.A[0].Op == sym.OpVar && c.A[1].IsConst() && !m.C.Raw {
		if env := m.models[c]; env != nil && m.envOK && !m.holds(c) {
			m.overlay(env)
		}
		clear(m.models)
		m.fix(c.A[0], c.A[1].Val)
		return
	}
	m.pc = append(m.pc, c)
	m.pcset[c] = true
	if m.envOK && !m.holds(c) {
		if env := m.models[c]; env != nil {
			m.overlay(env)
		} else {
			m.envOK = false
		}
	}
	clear(m.models)
}

func (m *Machine) holds(c *sym.Term) bool {
	return sym.Eval(c, m.Env, m.memo, m.defVal) != 0
}

// EnvVal is the value of a term under the current model.
func (m *Machine) EnvVal(t *sym.Term) uint64 {
	return sym.Eval(m.C.Subst(t), m.Env, m.memo, m.defVal)
}

func (m *Machine) overlay(model map[*sym.Term]uint64) {
	ch := false
	for v, x := range model {
		if y, ok := m.Env[v]; !ok || x != y {
			m.Env[v] = x
			ch = true
		}
		if in := info(v); in != nil && in.Group != nil {
			for _, u := range in.Group.vars {
				if y, ok := m.Env[u]; ok && u != v && y == x {
					if _, ok := model[u]; !ok {
						delete(m.Env, u)
					}
				}
			}
		}
	}
	if ch {
		m.memo = map[*sym.Term]uint64{}
	}
}

// repair makes Env a model of the path condition, part by part.
func (m *Machine) repair() bool {
	if m.envOK {
		return true
	}
	for _, v := range m.fixedOrder {
		if m.Env[v] != m.fixed[v] {
			m.Env[v] = m.fixed[v]
			m.memo = map[*sym.Term]uint64{}
		}
	}
	for _, c := range m.pc {
		if m.holds(c) {
			continue
		}
		conds := m.slice(c)
		r, env := m.solve(conds, sym.VarsOf(conds...))
		if r != sym.Sat {
			return false
		}
		m.overlay(env)
	}
	m.envOK = true
	return true
}

func (m *Machine) defVal(v *sym.Term) uint64 {
	x := m.defVal1(v)
	m.Env[v] = x
	return x
}

func (m *Machine) defVal1(v *sym.Term) uint64 {
	if x, ok := m.fixed[v]; ok {
		return x
	}
	if in := info(v); in != nil && in.Group != nil {
		// distinct from the others of the group
		used := map[uint64]bool{}
		for _, o := range in.Group.vars {
			if y, ok := m.Env[o]; ok {
				used[y] = true
			}
			if y, ok := m.fixed[o]; ok {
				used[y] = true
			}
		}
		for i := 0; i < 100000; i++ {
			x := v.Lo + uint64(m.mrng.Int63())%(v.Hi-v.Lo+1)
			if !used[x] {
				return x
			}
		}
	}
	if v.Lo == 0 && v.Hi == ^uint64(0) {
		return m.mrng.Uint64()
	}
	return v.Lo + m.mrng.Uint64()%(v.Hi-v.Lo+1)
}

func (m *Machine) varsOf(t *sym.Term) []*sym.Term {
	if v, ok := m.vcache[t]; ok {
		return v
	}
	v := sym.VarsOf(t)
	m.vcache[t] = v
	return v
}

// sliceVars lists the conditions that share variables, directly or not, with vs.
func (m *Machine) sliceVars(vs []*sym.Term) []*sym.Term {
	want := map[*sym.Term]bool{}
	var work []*sym.Term
	add := func(v *sym.Term) {
		if !want[v] {
			want[v] = true
			work = append(work, v)
		}
	}
	byVar := map[*sym.Term][]int{}
	for i, c := range m.pc {
		for _, v := range m.varsOf(c) {
			byVar[v] = append(byVar[v], i)
		}
	}
	for _, v := range vs {
		add(v)
	}
	seenG := map[*permGroup]bool{}
	used := map[int]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if in := info(v); in != nil && in.Group != nil && !seenG[in.Group] {
			seenG[in.Group] = true
			for _, u := range in.Group.vars {
				if byVar[u] != nil {
					add(u)
				}
			}
		}
		for _, i := range byVar[v] {
			if used[i] {
				continue
			}
			used[i] = true
			for _, u := range m.varsOf(m.pc[i]) {
				add(u)
			}
		}
	}
	var r []*sym.Term
	var idx []int
	for i := range used {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		r = append(r, m.pc[i])
	}
	// members of one permutation differ
	groups := map[*permGroup][]*sym.Term{}
	var gl []*permGroup
	var all []*sym.Term
	for v := range want {
		all = append(all, v)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	for _, v := range all {
		if in := info(v); in != nil && in.Group != nil {
			if groups[in.Group] == nil {
				gl = append(gl, in.Group)
			}
			groups[in.Group] = append(groups[in.Group], v)
		}
	}
	for _, g := range gl {
		mem := groups[g]
		for i, v := range mem {
			for _, u := range mem[:i] {
				r = append(r, m.C.Not(m.C.Eq(u, v)))
			}
			for _, x := range g.fixedVals() {
				if x >= v.Lo && x <= v.Hi {
					r = append(r, m.C.Not(m.C.Eq(v, m.C.Const(v.W, x))))
				}
			}
		}
	}
	return r
}

func (g *permGroup) fixedVals() []uint64 {
	var r []uint64
	for _, x := range g.fixed {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (m *Machine) slice(c *sym.Term) []*sym.Term {
	return append(m.sliceVars(m.varsOf(c)), c)
}

// check decides whether c can hold together with the path condition.
func (m *Machine) check(c *sym.Term) sym.Result {
	if c.IsFalse() {
		return sym.Unsat
	}
	if c.IsTrue() {
		return sym.Sat
	}
	if m.envOK && m.holds(c) {
		return sym.Sat
	}
	conds := m.slice(c)
	key := qkey(conds)
	if r, ok := m.qcache[key]; ok {
		return r
	}
	vs := sym.VarsOf(conds...)
	r, env := m.solve(conds, vs)
	if r == sym.Sat {
		m.models[c] = env
	}
	if r != sym.Unknown {
		m.qcache[key] = r
	}
	return r
}

// solve asks the solver for values of vs.
func (m *Machine) solve(conds, vs []*sym.Term) (r sym.Result, env map[*sym.Term]uint64) {
	few := len(vs) <= 6
	for _, v := range vs {
		few = few && v.W <= 8
	}
	if few {
		// the solver gets little time where splitting cases is an alternative
		all := m.S.Timeout
		m.S.SetTimeout(all / 20)
		r, env = m.S.Check(conds, vs)
		m.S.SetTimeout(all)
		if r == sym.Unknown {
			if r, env = m.cofactors(conds, vs); r == sym.Unknown {
				r, env = m.S.Check(conds, vs)
			}
		}
	} else {
		r, env = m.S.Check(conds, vs)
	}
	return r, env
}

// cofactors decides a condition on few bytes by Shannon expansion: values of a byte that leave the same term are one case.
func (m *Machine) cofactors(conds, vs []*sym.Term) (sym.Result, map[*sym.Term]uint64) {
	c := m.C
	all := c.True
	for _, x := range conds {
		all = c.And(all, x)
	}
	budget := 1 << 21
	memo := map[*sym.Term]map[*sym.Term]uint64{}
	var rec func(t *sym.Term) (map[*sym.Term]uint64, bool)
	rec = func(t *sym.Term) (map[*sym.Term]uint64, bool) {
		if t.IsConst() {
			if t.Val != 0 {
				return map[*sym.Term]uint64{}, true
			}
			return nil, true
		}
		if r, ok := memo[t]; ok {
			return r, true
		}
		xs := sym.VarsOf(t)
		size := 40 * len(xs)
		x := xs[len(xs)-1]
		if len(xs) == 1 {
			budget -= 256
			env := map[*sym.Term]uint64{}
			for v := x.Lo; v <= x.Hi; v++ {
				env[x] = v
				if sym.Eval(t, env, map[*sym.Term]uint64{}, nil) != 0 {
					memo[t] = map[*sym.Term]uint64{x: v}
					return memo[t], true
				}
			}
			memo[t] = nil
			return nil, true
		}
		seen := map[*sym.Term]bool{}
		for v := x.Lo; v <= x.Hi; v++ {
			if budget -= size; budget < 0 {
				return nil, false
			}
			f := m.replace(t, map[*sym.Term]*sym.Term{x: c.Const(x.W, v)})
			if seen[f] {
				continue
			}
			seen[f] = true
			r, ok := rec(f)
			if !ok {
				return nil, false
			}
			if r != nil {
				e := map[*sym.Term]uint64{x: v}
				for k, y := range r {
					e[k] = y
				}
				memo[t] = e
				return e, true
			}
		}
		memo[t] = nil
		return nil, true
	}
	r, ok := rec(all)
	if !ok {
		return sym.Unknown, nil
	}
	m.Stats.Expanded++
	if r == nil {
		return sym.Unsat, nil
	}
	for _, v := range vs {
		if _, ok := r[v]; !ok {
			r[v] = v.Lo
		}
	}
	return sym.Sat, r
}

func qkey(conds []*sym.Term) string {
	ids := make([]int, len(conds))
	for i, c := range conds {
		ids[i] = int(c.ID)
	}
	sort.Ints(ids)
	b := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

// decide follows a condition one way, leaving the other for later if it is possible too.
func (m *Machine) decide(c *sym.Term) bool {
	c = m.C.Subst(c)
	if c.IsConst() {
		return c.Val != 0
	}
	if m.pcset[c] {
		return true
	}
	nc := m.C.Not(c)
	if m.pcset[nc] {
		return false
	}
	if m.exploring {
		panic(mergeAbort{})
	}
	if m.Cfg.Conc && m.allDraws(c) && len(m.varsOf(c)) <= 64 {
		m.concretise(c)
		c = m.C.Subst(c)
		if c.IsConst() {
			return c.Val != 0
		}
		nc = m.C.Not(c)
	}
	m.Stats.Decisions++
	if m.di >= len(m.dec) {
		m.repair()
	}
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		if d.kind != 'b' {
			panic("decision mismatch")
		}
		m.di++
		if d.val != 0 {
			m.assume(c)
			return true
		}
		m.assume(nc)
		return false
	}
	m.limits()
	rt, rf := m.check(c), m.check(nc)
	if rt == sym.Unknown || rf == sym.Unknown {
		m.Stats.UnknownBranches++
		m.Weak = true
	}
	d := decision{kind: 'b'}
	switch {
	case rt != sym.Unsat && rf != sym.Unsat:
		m.Stats.Forks++
		d.val, d.n = 1, 1
	case rt != sym.Unsat:
		d.val = 1
	case rf != sym.Unsat:
		d.val = 0
	default:
		m.end("infeasible", "both sides of a branch")
	}
	m.dec = append(m.dec, d)
	m.di++
	if d.val != 0 {
		m.assume(c)
		return true
	}
	m.assume(nc)
	return false
}

// choose explores each of 0..n-1.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.exploring {
		panic(mergeAbort{})
	}
	if m.tape != nil {
		m.ts++
		if m.ts <= len(m.tape.Sched) && m.tape.Sched[m.ts-1] < n {
			return m.tape.Sched[m.ts-1]
		}
		return 0
	}
	r := m.choose1(n)
	m.choices = append(m.choices, r)
	return r
}

func (m *Machine) choose1(n int) int {
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		if d.kind != 'c' {
			panic("decision mismatch")
		}
		m.di++
		return d.val
	}
	m.dec = append(m.dec, decision{kind: 'c', val: 0, n: n - 1})
	m.di++
	return 0
}

// backtrack prepares the next path; false when all have been explored.
func (m *Machine) backtrack() bool {
	for len(m.dec) > 0 {
		d := &m.dec[len(m.dec)-1]
		if d.n > 0 {
			d.n--
			if d.kind == 'b' {
				d.val = 0
			} else {
				d.val++
			}
			return true
		}
		m.dec = m.dec[:len(m.dec)-1]
	}
	return false
}

// concInt makes an integer concrete: by forking over its values if they are few.
func (m *Machine) concInt(v Val, w uint8, what string) uint64 {
	if v.T == nil {
		return v.N
	}
	t := m.C.Subst(v.T)
	if t.IsConst() {
		return t.Val
	}
	if m.exploring {
		panic(mergeAbort{})
	}
	if m.Cfg.Conc && m.allDraws(t) {
		m.concretise(t)
		t = m.C.Subst(t)
		if t.IsConst() {
			return t.Val
		}
	}
	for i := 0; i < 600; i++ {
		// a value it can have
		var x uint64
		if m.di < len(m.dec) && m.dec[m.di].kind == 'x' {
			x = m.dec[m.di].u
			m.di++
		} else {
			conds := m.sliceVars(m.varsOf(t))
			vs := sym.VarsOf(append(append([]*sym.Term(nil), conds...), t)...)
			m.limits()
			r, env := m.solve(conds, vs)
			if r != sym.Sat {
				m.end("infeasible", "no value for %s", what)
			}
			x = sym.Eval(t, env, map[*sym.Term]uint64{}, m.defVal)
			m.dec = append(m.dec, decision{kind: 'x', u: x})
			m.di++
		}
		if m.decide(m.C.Eq(t, m.C.Const(t.W, x))) {
			return x
		}
	}
	m.end("bound", "more than 600 values of %s", what)
	return 0
}
