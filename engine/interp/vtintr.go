package interp

import (
	"fmt"
	"math/rand"
	"os"

	"verif/engine/sym"
)

// vtIntr are the functions of package vt.
var vtIntr = map[string]*Intrinsic{}

func vtReg(name string, f ifunc) { vtIntr[name] = &Intrinsic{name: "vt." + name, f: f} }

func (m *Machine) input(kind string, n int, w uint8, lo, hi uint64, secret bool) []Val {
	vs := make([]Val, n)
	ev := Event{Kind: "in"}
	if m.tape != nil {
		m.ti++
		for i := range vs {
			vs[i] = Val{N: lo}
			if m.ti <= len(m.tape.In) && i < len(m.tape.In[m.ti-1]) {
				vs[i] = Val{N: m.tape.In[m.ti-1][i]}
			}
		}
		return vs
	}
	seq := m.inSeq
	m.inSeq++
	for i := range vs {
		if m.Concrete {
			x := m.concRange(lo, hi)
			vs[i] = Val{N: x}
			ev.N = append(ev.N, x)
			continue
		}
		t := m.atom(fmt.Sprintf("%s%d.%d", kind, seq, i), w, lo, hi, func() *VarInfo { return &VarInfo{Input: true, Secret: secret} })
		ev.T = append(ev.T, t)
		vs[i] = tv(m.C.Subst(t))
	}
	m.events = append(m.events, ev)
	return vs
}

func (m *Machine) size(v Val, what string) int {
	n := int(int64(m.concInt(v, 64, what)))
	if n < 0 || n > 1<<22 {
		m.unsupported("%s %d", what, n)
	}
	return n
}

func (m *Machine) strOf(v Val) string {
	s, ok := v.P.(string)
	if !ok {
		return "?"
	}
	return s
}

// differ finds a byte in which two byte strings can differ.
func (m *Machine) differ(a, b []Val, under *sym.Term) (int, *sym.Term) {
	c := m.C
	nz := m.nonZero
	for i := range a {
		m.Stats.Asserts++
		x, y := m.tm(a[i], 8), m.tm(b[i], 8)
		if x == y {
			m.Stats.AssertNF++
			continue
		}
		d := c.Bin(sym.OpXor, x, y)
		if d.IsConst() {
			if d.Val == 0 {
				m.Stats.AssertNF++
				continue
			}
			return i, c.True
		}
		bad := c.Not(c.Eq(d, c.Const(8, 0)))
		if m.repair() && (under == nil || m.holds(under)) && m.holds(bad) {
			return i, bad
		}
		if !c.Raw {
			d2 := c.CanonNZ(d, nz)
			if d2.IsConst() && d2.Val == 0 {
				m.Stats.AssertNF++
				continue
			}
			d3 := c.Bin(sym.OpXor, c.CanonNZ(x, nz), c.CanonNZ(y, nz))
			if d3.IsConst() && d3.Val == 0 {
				m.Stats.AssertNF++
				continue
			}
			for _, z := range []*sym.Term{d2, d3} {
				ok, den := c.ZeroByte(z)
				if ok {
					for _, t := range den {
						if !nz(t) {
							ok = false
							break
						}
					}
				}
				if ok {
					d = nil
					break
				}
			}
			if d == nil {
				m.Stats.AssertNF++
				continue
			}
		}
		q := bad
		if under != nil {
			q = c.And(under, bad)
		}
		if under == nil && !c.Raw && m.zeroByCases(c.Canon(d)) {
			m.Stats.AssertNF++
			m.Stats.Expanded++
			continue
		}
		m.Stats.AssertSMT++
		if os.Getenv("VERIF_DIFF") != "" {
			fmt.Fprintln(os.Stderr, "differ:", c.CanonNZ(d, nz))
		}
		switch m.check(q) {
		case sym.Unsat:
			continue
		case sym.Sat:
			return i, bad
		}
		m.Stats.AssertUnknown++
	}
	return -1, nil
}

// zeroByCases tries to show that d is zero by splitting on the values of bytes that the path condition restricts.
func (m *Machine) zeroByCases(d *sym.Term) bool {
	c := m.C
	vs := sym.VarsOf(d)
	if len(vs) > 6 {
		return false
	}
	conds := m.sliceVars(vs)
	if len(conds) == 0 || len(conds) > 60 {
		return false
	}
	budget := 40000
	var rec func(d *sym.Term, conds []*sym.Term) bool
	rec = func(d *sym.Term, conds []*sym.Term) bool {
		if d.IsConst() {
			return d.Val == 0
		}
		in := map[*sym.Term]bool{}
		vs := sym.VarsOf(d)
		for _, v := range vs {
			in[v] = true
		}
		var v *sym.Term
		alone := false
		for _, q := range conds {
			for _, x := range sym.VarsOf(q) {
				if !in[x] || x.W != 8 {
					continue
				}
				one := len(sym.VarsOf(q)) == 1
				if v == nil || one && !alone {
					v, alone = x, one
				}
			}
		}
		if v == nil {
			return false
		}
		for val := v.Lo; val <= v.Hi; val++ {
			sub := map[*sym.Term]*sym.Term{v: c.Const(v.W, val)}
			var rest []*sym.Term
			ok := true
			for _, q := range conds {
				if budget--; budget < 0 {
					return false
				}
				q = m.replace(q, sub)
				if q.IsFalse() {
					ok = false
					break
				}
				if !q.IsTrue() {
					rest = append(rest, q)
				}
			}
			if !ok {
				continue
			}
			if !rec(c.Canon(m.replace(d, sub)), rest) {
				return false
			}
		}
		return true
	}
	return rec(d, conds)
}

func init() {
	bytesIn := func(kind string, secret, str, one bool) ifunc {
		return func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
			n := 1
			if !one {
				n = m.size(a[1], "length of an input")
			}
			vs := m.input(kind, n, 8, 0, 255, secret)
			switch {
			case one:
				return vs[0], true
			case str:
				return mkStr(vs), true
			}
			return m.mkSlice(vs, m.strOf(a[0])), true
		}
	}
	vtReg("Byte", bytesIn("in", false, false, true))
	vtReg("Bytes", bytesIn("in", false, false, false))
	vtReg("Secret", bytesIn("s", true, false, false))
	vtReg("String", bytesIn("in", false, true, false))
	vtReg("Int", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return m.input("in", 1, 64, 0, ^uint64(0), false)[0], true
	})
	vtReg("Range", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		lo, hi := m.concInt(a[1], 64, "bound"), m.concInt(a[2], 64, "bound")
		if lo == hi {
			m.events = append(m.events, Event{Kind: "in", N: []uint64{lo}})
			m.inSeq++
			m.ti++
			return Val{N: lo}, true
		}
		if hi < 256 && !m.Concrete {
			v := m.input("in", 1, 8, lo, hi, false)[0]
			return tv(m.C.ZExt(m.tm(v, 8), 64)), true
		}
		return m.input("in", 1, 64, lo, hi, false)[0], true
	})
	vtReg("Bool", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		v := m.input("in", 1, 8, 0, 1, false)[0]
		return tv(m.C.Eq(m.tm(v, 8), m.C.Const(8, 1))), true
	})
	vtReg("Choice", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		n := m.size(a[0], "choice")
		var x int
		switch {
		case m.tape != nil:
			m.ti++
			if m.ti <= len(m.tape.In) && len(m.tape.In[m.ti-1]) > 0 {
				x = int(m.tape.In[m.ti-1][0])
			}
			return Val{N: uint64(x)}, true
		case m.Concrete:
			x = m.crng.Intn(n)
		case n > 1:
			x = m.choose1(n)
		}
		m.events = append(m.events, Event{Kind: "in", N: []uint64{uint64(x)}})
		m.inSeq++
		return Val{N: uint64(x)}, true
	})
	vtReg("Conc", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return Val{N: m.concInt(a[0], 64, "value")}, true
	})
	vtReg("Fixed", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		if a[0].T != nil {
			m.concretise(a[0].T)
		}
		return Val{N: m.concInt(a[0], 64, "value")}, true
	})
	vtReg("Fix", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		for _, v := range m.readSlice(a[0], 8) {
			v = m.norm(v)
			if v.T != nil {
				m.concretise(v.T)
			}
		}
		return Val{}, true
	})
	vtReg("Assume", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		c := m.tb(a[0])
		if c.IsFalse() {
			m.end("assume", "assumption")
		}
		if c.IsTrue() {
			return Val{}, true
		}
		if m.di < len(m.dec) {
			// decided before
			m.assume(c)
			return Val{}, true
		}
		m.repair()
		if m.check(c) == sym.Unsat {
			m.end("assume", "assumption")
		}
		m.assume(c)
		return Val{}, true
	})
	vtReg("Assert", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		c := m.tb(a[0])
		m.Stats.Asserts++
		if c.IsTrue() {
			m.Stats.AssertNF++
			return Val{}, true
		}
		m.Stats.AssertSMT++
		msg := m.strOf(a[1])
		if c.IsFalse() {
			m.pathViolation("assert", msg)
		}
		if m.violation("assert", msg, m.C.Not(c)) {
			m.end("violation", "%s", msg)
		}
		return Val{}, true
	})
	vtReg("Fail", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.Stats.Asserts++
		m.pathViolation("assert", m.strOf(a[0]))
		return Val{}, true
	})
	eq := func(m *Machine, a, b Val, msg string, under *sym.Term) {
		x, y := m.readSlice(a, 8), m.readSlice(b, 8)
		if len(x) != len(y) {
			m.Stats.Asserts++
			msg = fmt.Sprintf("%s: %d bytes, expected %d", msg, len(x), len(y))
			if under == nil {
				m.pathViolation("assert", msg)
			}
			if m.violation("assert", msg, under) {
				m.end("violation", "%s", msg)
			}
			return
		}
		if i, bad := m.differ(x, y, under); i >= 0 {
			if under != nil {
				bad = m.C.And(under, bad)
			}
			msg = fmt.Sprintf("%s: byte %d of %d", msg, i, len(x))
			if m.violation("assert", msg, bad) {
				m.end("violation", "%s", msg)
			}
		}
	}
	vtReg("AssertEq", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		eq(m, a[0], a[1], m.strOf(a[2]), nil)
		return Val{}, true
	})
	vtReg("Same", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		x, y := m.readSlice(a[0], 8), m.readSlice(a[1], 8)
		if len(x) != len(y) {
			return bval(false), true
		}
		for i := range x {
			if m.canon(m.norm(x[i])) != m.canon(m.norm(y[i])) {
				return bval(false), true
			}
		}
		return bval(true), true
	})
	vtReg("Distinct", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		var ts []*sym.Term
		for _, x := range m.readSlice(a[0], 8) {
			var t *sym.Term
			if y := m.canon(m.norm(x)); y.T != nil {
				t = y.T
			} else {
				t = m.C.Const(8, y.N)
			}
			ts = append(ts, t)
		}
		return tv(m.distinct(ts)), true
	})
	vtReg("EqIf", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		c := m.tb(a[0])
		switch {
		case c.IsFalse():
		case c.IsTrue():
			eq(m, a[1], a[2], m.strOf(a[3]), nil)
		default:
			eq(m, a[1], a[2], m.strOf(a[3]), c)
		}
		return Val{}, true
	})
	vtReg("Cover", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.Covers[m.strOf(a[0])]++
		return Val{}, true
	})
	vtReg("Try", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		f, _ := a[0].P.(*Closure)
		if f == nil || f.Intr != nil || f.Recv != nil {
			m.unsupported("Try of this function")
		}
		fr := g.Frames[len(g.Frames)-1]
		dst := fr.code.blocks[fr.blk].ins[fr.pc].dst
		fin := func(p bool, msg string) {
			if dst >= 0 {
				fr.regs[dst] = Val{P: []Val{bval(p), {P: msg}}}
			}
			fr.pc++
		}
		fn := f.Fn
		if r := m.redirect(fn); r != nil {
			fn = r
		}
		nf := m.pushFrame(g, nil, m.code(fn), f.Free, nil)
		nf.onRet = func(Val) { fin(false, "") }
		nf.try = func(msg string) { fin(true, msg) }
		return Val{}, false
	})
	vtReg("Overlap", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		x, y := sl(a[0]), sl(a[1])
		if x.Obj == nil || y.Obj == nil || x.Obj != y.Obj || x.Cap == 0 || y.Cap == 0 {
			return bval(false), true
		}
		if x.Dims != nil || y.Dims != nil {
			m.unsupported("overlap of symbolic places")
		}
		return bval(x.Off < y.Off+y.Cap && y.Off < x.Off+x.Cap), true
	})
	vtReg("RandStream", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.streamID = fmt.Sprintf("h%d", m.concInt(a[0], 64, "stream"))
		for _, k := range []string{"", "p", "u"} {
			delete(m.streamPos, m.streamID+k)
		}
		return Val{}, true
	})
	vtReg("Observe", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.obs = append(m.obs, m.readSlice(a[0], 8)...)
		return Val{}, true
	})
	vtReg("NoLeak", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.noLeak(m.strOf(a[0]))
		return Val{}, true
	})
	vtReg("KeyUsed", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.keys = append(m.keys, m.readSlice(a[0], 8))
		return Val{}, true
	})
	vtReg("NKeys", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return Val{N: uint64(len(m.keys))}, true
	})
	vtReg("Key", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		i := int(m.concInt(a[0], 64, "index"))
		if i < 0 || i >= len(m.keys) {
			m.unsupported("no such key")
		}
		return m.mkSlice(append([]Val(nil), m.keys[i]...), "key"), true
	})
	vtReg("Guard", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		vs := m.readSlice(a[0], 8)
		return m.mkSlice(append([]Val(nil), vs...), "guarded"), true
	})
	vtReg("Out", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		m.Outs = append(m.Outs, Out{m.strOf(a[0]), m.readSlice(a[1], 8)})
		return Val{}, true
	})
	vtReg("OutInt", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		v := m.norm(a[1])
		o := Out{Name: m.strOf(a[0])}
		if v.T == nil {
			for _, c := range []byte(fmt.Sprint(int64(v.N))) {
				o.C = append(o.C, Val{N: uint64(c)})
			}
		}
		m.Outs = append(m.Outs, o)
		return Val{}, true
	})
	vtReg("Block", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return m.mkSlice(m.encrypt(m.readSlice(a[0], 8), m.readSlice(a[1], 8)), "block"), true
	})
	vtReg("Unblock", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return m.mkSlice(m.decrypt(m.readSlice(a[0], 8), m.readSlice(a[1], 8)), "block"), true
	})
	vtReg("Counter", func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		return m.mkSlice(m.counter(m.readSlice(a[0], 8), m.concInt(a[1], 64, "counter")), "counter"), true
	})

	reg(modelPath+".lenOf", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return Val{}, true
		}
		return Val{N: uint64(sl(i.V).Len)}, true
	})
	reg(modelPath+".swapOf", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		s := sl(a[0].P.(*Iface).V)
		i, j := int(m.concInt(a[1], 64, "index")), int(m.concInt(a[2], 64, "index"))
		x, y := m.loadCells(s.at(i), s.Stride), m.loadCells(s.at(j), s.Stride)
		m.storeCells(s.at(i), y)
		m.storeCells(s.at(j), x)
		return Val{}, true
	})
}

// RunConcrete runs a harness on random values and returns the tape and what it put out.
func (m *Machine) SetConcrete(seed int64) {
	m.Concrete = true
	m.crng = rand.New(rand.NewSource(seed))
	m.cstream = map[string]uint64{}
	m.cperm = map[string][]int{}
}

// SetTape makes the machine follow a tape.
func (m *Machine) SetTape(t *Tape) {
	m.SetConcrete(t.Seed)
	m.tape = t
}

// SetSymbolic undoes SetConcrete and SetTape.
func (m *Machine) SetSymbolic() {
	m.Concrete = false
	m.tape = nil
}

// distinct is true if no two of the bytes are the same.
func (m *Machine) distinct(ts []*sym.Term) *sym.Term {
	var consts [256]bool
	var rest []*sym.Term
	for _, t := range ts {
		if !t.IsConst() {
			rest = append(rest, t)
			continue
		}
		if consts[t.Val&255] {
			return m.C.False
		}
		consts[t.Val&255] = true
	}
	r := m.C.True
	if vs := sym.VarsOf(rest...); len(vs) == 1 && vs[0].W == 8 && !m.C.Raw {
		// functions of one byte: the values of it for which two are the same
		v := vs[0]
		tab := make([]uint64, 256)
		for x := v.Lo; x <= v.Hi; x++ {
			seen := consts
			env := map[*sym.Term]uint64{v: x}
			memo := map[*sym.Term]uint64{}
			for _, t := range rest {
				y := sym.Eval(t, env, memo, m.defVal) & 255
				if seen[y] {
					tab[x] = 1
				}
				seen[y] = true
			}
		}
		return m.C.Eq(m.C.Sel(m.C.NewTable(8, tab), v), m.C.Const(8, 0))
	}
	not := func(c *sym.Term) {
		if c.Op == sym.OpEq && !m.C.Raw {
			// members of one permutation
			x, y := c.A[0], c.A[1]
			if x.Op == sym.OpLin && len(x.A) == 2 && x.Val == 0 && x.Mats[0] == x.Mats[1] && y.IsConst() && y.Val == 0 {
				if _, ok := x.Mats[0].Inverse(); ok {
					x, y = x.A[0], x.A[1]
				}
			}
			if i, j := info(x), info(y); i != nil && j != nil && i.Group != nil && i.Group == j.Group {
				return
			}
		}
		r = m.C.And(r, m.C.Not(c))
	}
	for i, t := range rest {
		for _, u := range rest[:i] {
			not(m.C.Eq(t, u))
		}
		if len(rest) < len(ts) {
			// none of the constants: a table
			if simple(t) {
				tab := make([]uint64, 256)
				for x, c := range consts {
					if c {
						tab[x] = 1
					}
				}
				hit := m.C.Sel(m.C.NewTable(8, tab), t)
				not(m.C.Eq(hit, m.C.Const(8, 1)))
				continue
			}
			for x, c := range consts {
				if c {
					not(m.C.Eq(t, m.C.Const(8, uint64(x))))
				}
			}
		}
	}
	return r
}

func simple(t *sym.Term) bool { return len(sym.VarsOf(t)) == 1 }
