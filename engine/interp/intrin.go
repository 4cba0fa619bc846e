package interp

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

type ifunc = func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool)

var intrinsics = map[string]*Intrinsic{}

func reg(name string, sync bool, f ifunc) {
	intrinsics[name] = &Intrinsic{name: name, f: f, sync: sync}
}

func regs(f ifunc, names ...string) {
	for _, n := range names {
		reg(n, false, f)
	}
}

// redirects replace functions by models written in Go, in the package zzverif/model.
var redirects = map[string]string{
	"fmt.Errorf":           "Errorf",
	"crypto/cipher.NewCTR": "NewCTR",
	"crypto/aes.NewCipher": "NewCipher",
	"sort.Slice":           "SortSlice",
	"sort.SliceStable":     "SortSlice",
	"sort.Ints":            "SortInts",
	"math/rand.Shuffle":    "Shuffle",
	"math/rand/v2.Shuffle": "Shuffle",
	"errors.Is":            "Is",
	"time.After":           "After",

	"(*sync.Map).Load":             "MapLoad",
	"(*sync.Map).Store":            "MapStore",
	"(*sync.Map).LoadOrStore":      "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "MapLoadAndDelete",
	"(*sync.Map).Delete":           "MapDelete",
	"(*sync.Map).Swap":             "MapSwap",
	"(*sync.Map).CompareAndSwap":   "MapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "MapCompareAndDelete",
	"(*sync.Map).Range":            "MapRange",
	"(*sync.Map).Clear":            "MapClear",
}

func (m *Machine) redirect(fn *ssa.Function) *ssa.Function {
	if n, ok := redirects[fn.String()]; ok {
		return m.L.Model(n)
	}
	return nil
}

func (m *Machine) intrinsicFor(fn *ssa.Function) *Intrinsic {
	if fn == nil {
		return nil
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if i := intrinsics[name]; i != nil {
		return i
	}
	if p := pkgOf(fn); p != "" {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && !m.L.initPkg(p) {
			return nopIntr
		}
		if i := strings.LastIndex(name, vtPath+"."); i >= 0 && p == vtPath {
			if in := vtIntr[fn.Name()]; in != nil {
				return in
			}
		}
		if a := m.L.asm(p, fn.Name()); a != nil {
			return m.asmIntrinsic(a, fn)
		}
	}
	return nil
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

var nopIntr = &Intrinsic{name: "init", f: nop}

func nop(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
	if ci != nil && ci.retT != nil {
		return m.LS.zero(ci.retT), true
	}
	return Val{}, true
}

func konst(n uint64) ifunc {
	return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) { return Val{N: n}, true }
}

// ---- builtins ----

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int, noscan bool) int {
	req := n
	if !noscan && n > 512 {
		n += 8
	}
	if n <= 32768-8 || n <= 32768 && noscan {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i] - (n - req)
	}
	return (req + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen int, elem types.Type) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(sizes.Sizeof(elem))
	if sz == 0 {
		return newLen
	}
	return roundup(nc*sz, !hasPointers(elem)) / sz
}

func (m *Machine) cellsOf(v Val, w uint8) []Val {
	s := sl(v)
	if s.Obj == nil || s.Len == 0 {
		return nil
	}
	m.iteW = w
	n := s.Len * s.Stride
	if len(s.Dims) == 0 {
		if m.Cfg.Race {
			m.raceRead(s.Obj, s.Off, n)
		}
		return append([]Val(nil), s.Obj.C[s.Off:s.Off+n]...)
	}
	return m.loadCells(s.at(0), n)
}

func (m *Machine) putCells(v Val, at int, c []Val) {
	s := sl(v)
	if len(c) == 0 {
		return
	}
	if len(s.Dims) == 0 {
		off := s.Off + at*s.Stride
		if m.Cfg.Race {
			m.raceWrite(s.Obj, off, len(c))
		}
		for i, x := range c {
			m.set(s.Obj, off+i, x)
		}
		return
	}
	m.storeCells(s.at(at), c)
}

func (m *Machine) builtin(g *Gor, fr *Frame, ci *callInfo, name string, a []Val, in *Ins) {
	ret := func(v Val) {
		if in != nil {
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			fr.pc++
		}
	}
	switch name {
	case "len", "cap":
		var n int
		switch p := a[0].P.(type) {
		case nil:
		case *Slice:
			n = p.Len
			if name == "cap" {
				n = p.Cap
			}
		case string:
			n = len(p)
		case *SymStr:
			n = len(p.C)
		case *MapObj:
			n = len(m.mapEntries(g, p))
			if m.Cfg.Race {
				m.raceMap(p, false)
			}
		case *ChanObj:
			n = len(p.Buf)
			if name == "cap" {
				n = p.Cap
			}
		default:
			if at, ok := deref(ci.argT[0]).Underlying().(*types.Array); ok {
				n = int(at.Len())
			} else {
				m.unsupported("%s of %T", name, a[0].P)
			}
		}
		ret(Val{N: uint64(n)})
	case "append":
		st := ci.argT[0].Underlying().(*types.Slice)
		el := m.LS.of(st.Elem())
		s := sl(a[0])
		if s.Obj == nil && s.Stride != el.n {
			s = &Slice{Stride: el.n}
		}
		var add []Val
		if len(a) > 1 {
			if c, ok := strCells(a[1]); ok && a[1].P != nil {
				add = c
			} else {
				add = m.cellsOf(a[1], cellW(el))
			}
		}
		k := 0
		if el.n > 0 {
			k = len(add) / el.n
		} else if len(a) > 1 {
			k = sl(a[1]).Len
		}
		if k == 0 {
			ret(a[0])
			return
		}
		if s.Len+k <= s.Cap {
			r := *s
			r.Len = s.Len + k
			m.putCells(Val{P: s}, s.Len, add)
			ret(Val{P: &r})
			return
		}
		nc := growCap(s.Cap, s.Len+k, st.Elem())
		o := m.newArray(st.Elem(), nc, "append")
		old := m.cellsOf(a[0], cellW(el))
		copy(o.C, old)
		copy(o.C[len(old):], add)
		ret(Val{P: &Slice{Obj: o, Len: s.Len + k, Cap: nc, Stride: el.n}})
	case "copy":
		d := sl(a[0])
		var src []Val
		n := 0
		if c, ok := strCells(a[1]); ok && a[1].P != nil {
			src, n = c, len(c)
		} else {
			s := sl(a[1])
			n = s.Len
			if d.Len < n {
				n = d.Len
			}
			if n > 0 {
				t := *s
				t.Len = n
				src = m.cellsOf(Val{P: &t}, m.sliceW(ci.argT[1]))
			}
		}
		if d.Len < n {
			n = d.Len
		}
		if n > 0 {
			m.iteW = m.sliceW(ci.argT[0])
			m.putCells(a[0], 0, src[:n*d.Stride])
		}
		ret(Val{N: uint64(n)})
	case "delete":
		mp, _ := a[0].P.(*MapObj)
		m.mapDelete(g, mp, a[1])
		ret(Val{})
	case "clear":
		switch p := a[0].P.(type) {
		case *MapObj:
			m.touchMap(p)
			p.E, p.Idx, p.Sym = nil, map[string]int{}, false
		case *Slice:
			z := m.LS.zero(ci.argT[0].Underlying().(*types.Slice).Elem())
			var c []Val
			for i := 0; i < p.Len; i++ {
				if zc, ok := z.P.([]Val); ok {
					c = append(c, zc...)
				} else {
					c = append(c, z)
				}
			}
			m.putCells(a[0], 0, c)
		}
		ret(Val{})
	case "close":
		if m.closeChan(g, a[0]) {
			ret(Val{})
		}
	case "panic":
		m.goPanic(g, a[0], m.show(a[0]))
	case "print", "println":
		ret(Val{})
	case "recover":
		var v Val
		if n := len(g.Frames); fr.isDef && n >= 2 {
			p := g.Frames[n-2].pan
			if p != nil && !p.Recovered && g.Panic == p {
				p.Recovered = true
				v = p.V
			}
		}
		ret(v)
	case "min", "max":
		l := m.LS.of(ci.argT[0])
		r := a[0]
		for _, b := range a[1:] {
			if l.kind != kInt {
				m.unsupported("%s of %s", name, ci.argT[0])
			}
			x, y := m.tm(r, l.w), m.tm(b, l.w)
			var c *sym.Term
			if l.sgn {
				c = m.C.Slt(x, y)
			} else {
				c = m.C.Ult(x, y)
			}
			if name == "max" {
				x, y = y, x
			}
			r = tv(m.C.Ite(c, x, y))
		}
		ret(r)
	case "ssa:wrapnilchk":
		if a[0].P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return
		}
		ret(a[0])
	case "String":
		n := int(m.concInt(a[1], 64, "length"))
		if n == 0 {
			ret(Val{P: ""})
			return
		}
		m.iteW = 8
		ret(mkStr(m.loadCells(a[0], n)))
	case "Slice":
		n := int(m.concInt(a[1], 64, "length"))
		if a[0].P == nil {
			ret(Val{})
			return
		}
		o, ok := a[0].P.(*Object)
		if !ok {
			m.unsupported("unsafe.Slice")
		}
		el := m.LS.of(deref(ci.argT[0])).n
		ret(Val{P: &Slice{Obj: o, Off: int(a[0].N), Len: n, Cap: n, Stride: el}})
	case "SliceData":
		s := sl(a[0])
		if s.Obj == nil {
			ret(Val{})
			return
		}
		ret(s.at(0))
	case "StringData":
		c, _ := strCells(a[0])
		if len(c) == 0 {
			ret(Val{})
			return
		}
		o := m.newCells(len(c), "string")
		copy(o.C, c)
		ret(Val{P: o})
	case "Add":
		ret(m.ptrAdd(a[0], int(int64(m.concInt(a[1], 64, "offset")))))
	default:
		m.unsupported("builtin %s", name)
	}
}

func (m *Machine) sliceW(t types.Type) uint8 {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return cellW(m.LS.of(s.Elem()))
	}
	return 8
}

// ---- the environment ----

func init() {
	regs(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory",
		"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetOutput", "log.SetPrefix",
		"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"(*log.Logger).Printf", "(*log.Logger).Println", "time.Sleep", "internal/godebug.New",
		"(*internal/godebug.Setting).IncNonDefault", "runtime.LockOSThread", "runtime.UnlockOSThread")
	reg("runtime.Gosched", true, nop)
	regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) { return Val{P: ""}, true },
		"(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Name", "os.Getenv")
	regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		_, n := m.Cfg.cpu()
		return Val{N: uint64(n)}, true
	}, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg("runtime.NumGoroutine", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		n := 0
		for _, x := range m.gors {
			if x.State != gDone {
				n++
			}
		}
		return Val{N: uint64(n)}, true
	})
	regs(nop, "crypto/internal/fips140.getIndicator", "crypto/internal/fips140.setIndicator", "sync.runtime_notifyListCheck")
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log,
		"Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10, "Sin": math.Sin, "Cos": math.Cos, "Round": math.Round, "Cbrt": math.Cbrt, "Exp2": math.Exp2} {
		f := f
		regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			return Val{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}, true
		}, "math."+n, "math.arch"+n)
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Hypot": math.Hypot, "Atan2": math.Atan2} {
		f := f
		regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			return Val{N: math.Float64bits(f(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}, true
		}, "math."+n, "math.arch"+n)
	}
	// conditions
	reg("sync.runtime_notifyListAdd", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		s.n++
		return Val{N: uint64(s.n - 1)}, true
	})
	reg("sync.runtime_notifyListWait", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s, t := m.lock(a[0]), int(uint32(a[1].N))
		if s.readers <= t {
			m.block(g, "Cond", func() bool { return s.readers > t })
			return Val{}, false
		}
		m.acquire(g, s.vc)
		return Val{}, true
	})
	notify := func(all bool) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			s := m.lock(a[0])
			switch {
			case all:
				s.readers = s.n
			case s.readers < s.n:
				s.readers++
			}
			nv := s.vc.copy()
			nv.join(m.release(g))
			s.vc = nv
			return Val{}, true
		}
	}
	reg("sync.runtime_notifyListNotifyOne", true, notify(false))
	reg("sync.runtime_notifyListNotifyAll", true, notify(true))
	// atomic.Value has one cell
	aval := func(op string) {
		reg("(*sync/atomic.Value)."+op, true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			o, ok := a[0].P.(*Object)
			if !ok {
				m.unsupported("atomic.Value")
			}
			s := m.lock(a[0])
			m.acquire(g, s.vc)
			nv := s.vc.copy()
			nv.join(m.release(g))
			s.vc = nv
			old := o.C[a[0].N]
			set := func(v Val) bool {
				if v.P == nil {
					m.goPanic(g, Val{P: "sync/atomic: store of nil value into Value"}, "store of nil value into Value")
					return false
				}
				if old.P != nil && !m.identical(old.P.(*Iface).T, v.P.(*Iface).T) {
					m.goPanic(g, Val{P: "sync/atomic: store of inconsistently typed value into Value"}, "store of inconsistently typed value into Value")
					return false
				}
				m.storeCells(a[0], []Val{v})
				return true
			}
			switch op {
			case "Load":
				return old, true
			case "Store":
				return Val{}, set(a[1])
			case "Swap":
				return old, set(a[1])
			}
			q, ok := m.equal(g, m.emptyIface(), old, a[1])
			if !ok {
				return Val{}, false
			}
			if q.T != nil && !m.decide(m.tb(q)) || q.T == nil && q.N == 0 {
				return bval(false), true
			}
			return bval(true), set(a[2])
		})
	}
	aval("Load")
	aval("Store")
	aval("Swap")
	aval("CompareAndSwap")
	// timers go off when nothing else can happen
	reg(modelPath+".idle", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		g.timer = true
		for _, x := range m.gors {
			if x != g && !x.timer && m.runnable(x) {
				m.block(g, "timer", func() bool {
					for _, x := range m.gors {
						if x != g && !x.timer && m.runnable(x) {
							return false
						}
					}
					return true
				})
				return Val{}, false
			}
		}
		g.timer = false
		return Val{}, true
	})
	regs(konst(0), "crypto/internal/fips140only.Enforced", "crypto/fips140.Enabled", "internal/race.Enabled", "crypto/internal/boring.Enabled")
	exit := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.pathViolation("exit", "the process exits at "+m.where(g))
		return Val{}, true
	}
	regs(exit, "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln")
	lp := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.rtPanic(g, "log.Panic")
		return Val{}, false
	}
	regs(lp, "log.Panic", "log.Panicf", "log.Panicln")
	sp := func(kind string) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			var xs []any
			for _, v := range m.readSlice(a[len(a)-1], 255) {
				x, ok := m.toGo(v)
				if !ok {
					// messages
					if kind == "f" {
						return a[0], true
					}
					return Val{P: "?"}, true
				}
				xs = append(xs, x)
			}
			switch kind {
			case "f":
				f, ok := a[0].P.(string)
				if !ok {
					m.unsupported("symbolic format")
				}
				return Val{P: fmt.Sprintf(f, xs...)}, true
			case "ln":
				return Val{P: fmt.Sprintln(xs...)}, true
			}
			return Val{P: fmt.Sprint(xs...)}, true
		}
	}
	reg("fmt.Sprintf", false, sp("f"))
	reg("fmt.Sprint", false, sp(""))
	reg("fmt.Sprintln", false, sp("ln"))

	// time passes by one nanosecond per question
	reg("time.Now", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.clock++
		c := m.LS.zero(ci.retT).P.([]Val)
		c = append([]Val(nil), c...)
		c[0] = Val{N: uint64(123456789 + m.clock)}
		c[1] = Val{N: 63900000000}
		return Val{P: c}, true
	})
	regs(nop, "time.Since", "time.runtimeNano", "time.now")

	// sync
	mu := "(*sync.Mutex)."
	rw := "(*sync.RWMutex)."
	lockW := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		if a[0].P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return Val{}, false
		}
		s := m.lock(a[0])
		if s.locked || s.readers > 0 {
			m.block(g, "lock", func() bool { return !s.locked && s.readers == 0 })
			return Val{}, false
		}
		s.locked = true
		m.acquire(g, s.vc)
		return Val{}, true
	}
	tryLock := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		if s.locked || s.readers > 0 {
			return bval(false), true
		}
		s.locked = true
		m.acquire(g, s.vc)
		return bval(true), true
	}
	unlock := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		if !s.locked {
			m.pathViolation("exit", "fatal error: unlock of unlocked mutex at "+m.where(g))
		}
		s.locked = false
		s.vc = m.release(g)
		return Val{}, true
	}
	reg(mu+"Lock", true, lockW)
	reg(mu+"TryLock", true, tryLock)
	reg(mu+"Unlock", true, unlock)
	reg(rw+"Lock", true, lockW)
	reg(rw+"TryLock", true, tryLock)
	reg(rw+"Unlock", true, unlock)
	reg(rw+"RLock", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		if s.locked {
			m.block(g, "read lock", func() bool { return !s.locked })
			return Val{}, false
		}
		s.readers++
		m.acquire(g, s.vc)
		return Val{}, true
	})
	reg(rw+"RUnlock", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		if s.readers == 0 {
			m.pathViolation("exit", "fatal error: RUnlock of unlocked RWMutex at "+m.where(g))
		}
		s.readers--
		if vc := m.release(g); vc != nil {
			nv := s.vc.copy()
			nv.join(vc)
			s.vc = nv
		}
		return Val{}, true
	})
	wg := "(*sync.WaitGroup)."
	wgAdd := func(m *Machine, g *Gor, p Val, n int64) bool {
		s := m.lock(p)
		s.n += int(n)
		if s.n < 0 {
			m.rtPanic(g, "sync: negative WaitGroup counter")
			return false
		}
		if n < 0 {
			if vc := m.release(g); vc != nil {
				nv := s.vc.copy()
				nv.join(vc)
				s.vc = nv
			}
		}
		return true
	}
	reg(wg+"Add", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return Val{}, wgAdd(m, g, a[0], int64(m.concInt(a[1], 64, "count")))
	})
	reg(wg+"Done", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return Val{}, wgAdd(m, g, a[0], -1)
	})
	reg(wg+"Wait", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		if s.n > 0 {
			m.block(g, "WaitGroup", func() bool { return s.n == 0 })
			return Val{}, false
		}
		m.acquire(g, s.vc)
		return Val{}, true
	})
	reg(wg+"Go", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		p := a[0]
		m.lock(p).n++
		n := m.newGor()
		if m.Cfg.Race {
			n.VC.join(m.release(g))
			n.VC.set(n.ID, 1)
		}
		c, _ := a[1].P.(*Closure)
		if c == nil {
			m.unsupported("WaitGroup.Go with nil")
		}
		m.startGor(n, c, nil)
		n.Frames[0].onRet = func(Val) {
			wgAdd(m, n, p, -1)
			n.State = gDone
		}
		return Val{}, true
	})
	reg("(*sync.Once).Do", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		k := lockKey{a[0].P.(*Object), int(a[0].N)}
		s := m.onces[k]
		if s == nil {
			s = &onceState{}
			m.onces[k] = s
		}
		if s.done {
			m.acquire(g, s.vc)
			return Val{}, true
		}
		if s.running {
			m.block(g, "Once", func() bool { return s.done })
			return Val{}, false
		}
		s.running = true
		fr := g.Frames[len(g.Frames)-1]
		f := a[1].P.(*Closure)
		if f.Intr != nil || f.Recv != nil {
			m.unsupported("Once.Do")
		}
		nf := m.pushFrame(g, nil, m.code(f.Fn), f.Free, nil)
		nf.onRet = func(Val) {
			s.done = true
			s.vc = m.release(g)
			fr.pc++
		}
		return Val{}, false
	})
	// what the model of sync.Map keeps, with everything in the map ordered
	reg(modelPath+".enter", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		o, ok := a[0].P.(*Object)
		if !ok {
			m.unsupported("sync.Map")
		}
		m.acquire(g, m.lock(a[0]).vc)
		k := lockKey{o, int(a[0].N)}
		mp := m.smaps[k]
		if mp == nil {
			m.nobj++
			t := m.emptyIface()
			mp = &MapObj{ID: m.nobj, Epoch: m.epoch, Idx: map[string]int{}, KT: t, VT: t}
			m.smaps[k] = mp
			if m.inited {
				m.undo = append(m.undo, undo{f: func() { delete(m.smaps, k) }})
			}
		}
		return Val{P: mp}, true
	})
	reg(modelPath+".leave", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := m.lock(a[0])
		nv := s.vc.copy()
		nv.join(m.release(g))
		s.vc = nv
		return Val{}, true
	})
	// A pool gives back what was put last, or makes something new.
	reg("(*sync.Pool).Get", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		o, ok := a[0].P.(*Object)
		if !ok {
			m.unsupported("sync.Pool")
		}
		k := lockKey{o, int(a[0].N)}
		if l := m.pools[k]; len(l) > 0 {
			it := l[len(l)-1]
			m.pools[k] = l[: len(l)-1 : len(l)-1]
			m.acquire(g, it.VC)
			return it.V, true
		}
		pt := m.L.poolType()
		lay := m.LS.of(pt)
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f, _ := o.C[int(a[0].N)+lay.off[i]].P.(*Closure)
				if f == nil {
					return Val{}, true
				}
				fr := g.Frames[len(g.Frames)-1]
				ins := &fr.code.blocks[fr.blk].ins[fr.pc]
				m.callValue(g, ins, Val{P: f}, nil, ci)
				return Val{}, false
			}
		}
		return Val{}, true
	})
	reg("(*sync.Pool).Put", true, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		o, ok := a[0].P.(*Object)
		if !ok {
			m.unsupported("sync.Pool")
		}
		k := lockKey{o, int(a[0].N)}
		l := m.pools[k]
		m.pools[k] = append(l[:len(l):len(l)], chanItem{a[1], m.release(g)})
		return Val{}, true
	})

	// atomics
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}, {"Bool", 1}} {
		ty := ty
		w := ty.w
		for _, meth := range []bool{false, true} {
			nm := func(op string) string {
				if meth {
					return "(*sync/atomic." + ty.n + ")." + op
				}
				return "sync/atomic." + op + ty.n
			}
			cell := func(m *Machine, a Val) Val {
				if !meth {
					return a
				}
				// the value is the last cell of the struct
				n := 0
				if t := m.L.atomicType(ty.n); t != nil {
					n = m.LS.of(t).n
				}
				if ty.n == "Pointer" {
					n = 1
				}
				if n == 0 {
					n = 1
				}
				return m.ptrAdd(a, n-1)
			}
			sync := func(m *Machine, g *Gor, p Val) {
				if m.Cfg.Race {
					s := m.lock(p)
					m.acquire(g, s.vc)
					nv := s.vc.copy()
					nv.join(m.release(g))
					s.vc = nv
				}
			}
			ld := func(m *Machine, p Val) Val {
				if o, ok := p.P.(*Object); ok {
					return o.C[p.N]
				}
				m.iteW = w
				return m.loadCells(p, 1)[0]
			}
			st := func(m *Machine, p, v Val) {
				if o, ok := p.P.(*Object); ok {
					m.set(o, int(p.N), v)
					return
				}
				m.iteW = w
				m.storeCells(p, []Val{v})
			}
			nilp := func(f ifunc) ifunc {
				return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
					if a[0].P == nil {
						m.rtPanic(g, "invalid memory address or nil pointer dereference")
						return Val{}, false
					}
					return f(m, g, a, ci)
				}
			}
			reg(nm("Load"), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
				p := cell(m, a[0])
				sync(m, g, p)
				return ld(m, p), true
			}))
			reg(nm("Store"), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
				p := cell(m, a[0])
				sync(m, g, p)
				st(m, p, a[1])
				return Val{}, true
			}))
			reg(nm("Swap"), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
				p := cell(m, a[0])
				sync(m, g, p)
				v := ld(m, p)
				st(m, p, a[1])
				return v, true
			}))
			reg(nm("CompareAndSwap"), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
				p := cell(m, a[0])
				sync(m, g, p)
				v := ld(m, p)
				var eq bool
				switch w {
				case 0:
					eq = samePtr(v.P, a[1].P) && v.N == a[1].N
				case 1:
					eq = m.decide(m.C.Eq(m.tb(v), m.tb(a[1])))
				default:
					eq = m.decide(m.C.Eq(m.tm(v, w), m.tm(a[1], w)))
				}
				if eq {
					st(m, p, a[2])
				}
				return bval(eq), true
			}))
			if w >= 32 {
				reg(nm("Add"), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
					p := cell(m, a[0])
					sync(m, g, p)
					v := tv(m.C.Bin(sym.OpAdd, m.tm(ld(m, p), w), m.tm(a[1], w)))
					st(m, p, v)
					return v, true
				}))
				for op, so := range map[string]sym.Op{"And": sym.OpAnd, "Or": sym.OpOr} {
					so := so
					reg(nm(op), true, nilp(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
						p := cell(m, a[0])
						sync(m, g, p)
						old := ld(m, p)
						st(m, p, tv(m.C.Bin(so, m.tm(old, w), m.tm(a[1], w))))
						return old, true
					}))
				}
			}
		}
	}

	// memory
	reg("crypto/internal/constanttime.boolToUint8", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		if a[0].T == nil {
			return a[0], true
		}
		return tv(m.C.Ite(m.tb(a[0]), m.C.Const(8, 1), m.C.Const(8, 0))), true
	})
	reg("crypto/subtle.XORBytes", false, xorBytes)
	reg("crypto/internal/fips140/subtle.XORBytes", false, xorBytes)
	overl := func(exact bool) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			x, y := sl(a[0]), sl(a[1])
			if x.Len == 0 || y.Len == 0 || x.Obj != y.Obj {
				return bval(false), true
			}
			if x.Dims != nil || y.Dims != nil {
				m.unsupported("overlap of symbolic places")
			}
			any := x.Off < y.Off+y.Len && y.Off < x.Off+x.Len
			if exact && x.Off == y.Off {
				any = false
			}
			return bval(any), true
		}
	}
	for _, p := range []string{"crypto/internal/fips140/alias", "crypto/internal/alias", "golang.org/x/crypto/internal/alias"} {
		reg(p+".AnyOverlap", false, overl(false))
		reg(p+".InexactOverlap", false, overl(true))
	}
	bytesEq := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		x, y := m.readSlice(a[0], 8), m.readSlice(a[1], 8)
		if len(x) != len(y) {
			return bval(false), true
		}
		t := m.C.True
		for i := range x {
			t = m.C.And(t, m.C.Eq(m.tm(x[i], 8), m.tm(y[i], 8)))
		}
		return tv(t), true
	}
	regs(bytesEq, "bytes.Equal")
	idxByte := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		var c []Val
		if s, ok := strCells(a[0]); ok && a[0].P != nil {
			c = s
		} else {
			c = m.readSlice(a[0], 8)
		}
		for i, x := range c {
			if m.decide(m.C.Eq(m.tm(x, 8), m.tm(a[1], 8))) {
				return Val{N: uint64(i)}, true
			}
		}
		return Val{N: ^uint64(0)}, true
	}
	regs(idxByte, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte")
	regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		n := int(m.concInt(a[0], 64, "size"))
		if n < 0 || n > 1<<24 {
			m.unsupported("large buffer")
		}
		o := m.newCells(roundup(n, true), "bytes")
		return Val{P: &Slice{Obj: o, Len: n, Cap: n, Stride: 1}}, true
	}, "internal/bytealg.MakeNoZero")
	regs(func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		x, y := m.readSlice(a[0], 8), m.readSlice(a[1], 8)
		for i := 0; i < len(x) && i < len(y); i++ {
			p, q := m.tm(x[i], 8), m.tm(y[i], 8)
			if m.decide(m.C.Eq(p, q)) {
				continue
			}
			if m.decide(m.C.Ult(m.C.Subst(p), m.C.Subst(q))) {
				return Val{N: ^uint64(0)}, true
			}
			return Val{N: 1}, true
		}
		return Val{N: uint64(int64(len(x)) - int64(len(y)))}, true
	}, "bytes.Compare", "internal/bytealg.Compare")

	// cpu features
	cpu := func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		fr := g.Frames[len(g.Frames)-1]
		if !m.L.repo(fr.code.pkg) {
			return bval(false), true
		}
		var ids []string
		for _, v := range m.readSlice(a[len(a)-1], 64) {
			ids = append(ids, m.L.cpuidName(v.N))
		}
		m.cpuAsked = true
		for _, id := range ids {
			if !m.cpuHas(id) {
				return bval(false), true
			}
		}
		return bval(true), true
	}
	for _, p := range []string{"github.com/klauspost/cpuid/v2", "github.com/klauspost/cpuid"} {
		for _, r := range []string{"(" + p + ".CPUInfo)", "(*" + p + ".CPUInfo)"} {
			reg(r+".Supports", false, cpu)
			reg(r+".HasAll", false, cpu)
			regs(konst(0), r+".AnyOf", r+".Has", r+".SSE2", r+".AVX2")
		}
	}
}

func (m *Machine) cpuHas(id string) bool {
	order := map[string]int{"none": 0, "sse2": 1, "ssse3": 2, "avx2": 3, "avx512": 4, "": 3}
	cpu, _ := m.Cfg.cpu()
	have := order[cpu]
	if cpu == "avx2only" {
		return id == "AVX2"
	}
	switch id {
	case "SSE2", "SSE":
		return have >= 1
	case "SSE3", "SSSE3":
		return have >= 2
	case "SSE4", "SSE42", "AVX", "AVX2", "BMI1", "BMI2":
		return have >= 3
	}
	return have >= 4 && strings.HasPrefix(id, "AVX512")
}

func xorBytes(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
	x, y := sl(a[1]), sl(a[2])
	n := min(x.Len, y.Len)
	if n == 0 {
		return Val{}, true
	}
	if sl(a[0]).Len < n {
		m.rtPanic(g, "subtle.XORBytes: dst too short")
		return Val{}, false
	}
	p, q := m.readSlice(a[1], 8), m.readSlice(a[2], 8)
	r := make([]Val, n)
	for i := range r {
		r[i] = m.xorV(p[i], q[i])
	}
	m.writeSlice(a[0], 0, r)
	return Val{N: uint64(n)}, true
}

func (m *Machine) xorV(a, b Val) Val {
	if a.T == nil && b.T == nil {
		return Val{N: a.N ^ b.N}
	}
	return tv(m.C.Bin(sym.OpXor, m.tm(a, 8), m.tm(b, 8)))
}

// toGo converts a concrete value held by an interface for formatting.
func (m *Machine) toGo(v Val) (any, bool) {
	i, ok := v.P.(*Iface)
	if !ok {
		return nil, v.P == nil
	}
	l := m.LS.of(i.T)
	x := m.norm(i.V)
	if x.T != nil {
		return nil, false
	}
	switch l.kind {
	case kInt:
		if l.sgn {
			return signExt(x.N, l.w), true
		}
		if l.w == 8 {
			return byte(x.N), true
		}
		return x.N, true
	case kBool:
		return x.N != 0, true
	case kString:
		s, ok := x.P.(string)
		return s, ok
	case kSlice:
		if m.elemW(i.T) == 8 {
			var b []byte
			for _, c := range m.readSlice(x, 8) {
				c = m.norm(c)
				if c.T != nil {
					return nil, false
				}
				b = append(b, byte(c.N))
			}
			return b, true
		}
	}
	return nil, false
}
