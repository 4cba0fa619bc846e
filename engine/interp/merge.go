package interp

import (
	"verif/engine/sym"
)

// Branches on symbolic conditions whose two sides only compute values (and store some) are not explored one after the
// other: both sides are executed up to the place where they meet, and what they computed is merged. It keeps functions
// such as multiplication by shifting and adding, written with branches, from doubling the number of paths each time.
// When anything else happens on a side (a panic, a blocking operation, a choice), or when the merged values are not
// functions of at most two bytes, the branch is explored the ordinary way.

type mergeAbort struct{}

type store struct {
	o *Object
	i int
	v Val
	w uint8
}

type merger struct {
	m      *Machine
	g      *Gor
	budget int
	depth  int
	stores []store // on the current side
}

const exitBlock = int32(-1)

// ipdoms finds, for each block, the first block all ways to a return lead through: exitBlock if that is the return
// itself, -2 if there is none.
func (code *Code) ipdoms() []int32 {
	if code.ipdom != nil {
		return code.ipdom
	}
	n := len(code.blocks)
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	// blocks that reach a return
	reach := make([]bool, n)
	ret := make([]bool, n)
	for i := range code.blocks {
		b := &code.blocks[i]
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == oReturn {
			ret[i], reach[i] = true, true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := range code.blocks {
			for _, s := range code.blocks[i].succs {
				if reach[s] && !reach[i] {
					reach[i], ch = true, true
				}
			}
		}
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
		if ret[i] {
			pd[i] = make([]uint64, words)
			pd[i][i/64] |= 1 << (i % 64)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if ret[i] || !reach[i] {
				continue
			}
			for w := 0; w < words; w++ {
				x := ^uint64(0)
				for _, s := range code.blocks[i].succs {
					if reach[s] {
						x &= pd[s][w]
					}
				}
				if i/64 == w {
					x |= 1 << (i % 64)
				}
				if x != pd[i][w] {
					pd[i][w], ch = x, true
				}
			}
		}
	}
	count := func(x []uint64) int {
		c := 0
		for i := 0; i < n; i++ {
			if x[i/64]>>(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	code.ipdom = make([]int32, n)
	for i := range code.ipdom {
		code.ipdom[i] = -2
		if !reach[i] {
			continue
		}
		code.ipdom[i] = exitBlock
		c := count(pd[i])
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 != 0 && count(pd[j]) == c-1 {
				code.ipdom[i] = int32(j)
			}
		}
	}
	return code.ipdom
}

// tryMerge executes both sides of the branch fr is at. It returns false if nothing was done.
func (m *Machine) tryMerge(g *Gor, fr *Frame, cond *sym.Term) bool {
	if m.C.Raw || m.Cfg.NoMerge || m.exploring || fr.isDef || g.Panic != nil {
		return false
	}
	cond = m.C.Subst(cond)
	if cond.IsConst() || m.pcset[cond] || m.pcset[m.C.Not(cond)] {
		return false
	}
	if m.Cfg.Conc && m.allDraws(cond) {
		return false
	}
	if !m.C.FewLeaves(cond) {
		return false
	}
	stop := fr.code.ipdoms()[fr.blk]
	if stop == -2 || stop == exitBlock && len(fr.defers) > 0 {
		return false
	}
	e := &merger{m: m, g: g, budget: 4000}
	vals, ok := e.attempt(fr, cond, stop)
	if !ok {
		m.Stats.MergesTried++
		return false
	}
	for _, s := range e.stores {
		if !m.mergeable(s.v) {
			return false
		}
	}
	for i := range vals {
		if !m.mergeable(vals[i]) {
			return false
		}
	}
	m.Stats.Merges++
	for _, s := range e.stores {
		m.set(s.o, s.i, s.v)
	}
	if stop == exitBlock {
		var v Val
		switch len(vals) {
		case 0:
		case 1:
			v = vals[0]
		default:
			v = Val{P: vals}
		}
		m.doReturn(g, v)
		return true
	}
	for i := range vals {
		fr.regs[fr.code.blocks[stop].phis[i].dst] = vals[i]
	}
	fr.blk, fr.pc = stop, 0
	return true
}

func (m *Machine) mergeable(v Val) bool {
	if v.T == nil {
		return true
	}
	if v.T.W == 0 {
		return false
	}
	if v.T.W == 8 {
		return m.C.IsCanonical(v.T)
	}
	return m.C.FewLeaves(v.T)
}

func (e *merger) attempt(fr *Frame, cond *sym.Term, stop int32) (vals []Val, ok bool) {
	m := e.m
	cur := m.cur
	steps := m.steps
	frames, pan := len(e.g.Frames), e.g.Panic
	defer func() {
		m.exploring = false
		m.cur = cur
		if r := recover(); r != nil {
			if _, is := r.(mergeAbort); !is {
				panic(r)
			}
			m.steps = steps
			vals, ok = nil, false
		}
		if len(e.g.Frames) != frames || e.g.Panic != pan {
			panic("merge: frames changed")
		}
	}()
	m.exploring = true
	tmp := &Frame{code: fr.code, regs: append([]Val(nil), fr.regs...), blk: fr.blk, pc: fr.pc, ins: fr.ins}
	return e.branch(tmp, cond, stop), true
}

func (e *merger) abort() { panic(mergeAbort{}) }

// branch executes both sides of the branch at the end of fr's block up to stop, and returns the values of its phis
// (or the results, when stop is the return).
func (e *merger) branch(fr *Frame, cond *sym.Term, stop int32) []Val {
	if e.depth++; e.depth > 40 {
		e.abort()
	}
	base := e.stores
	var vals [2][]Val
	var stores [2][]store
	regs := fr.regs
	blk := fr.blk
	for side := 0; side < 2; side++ {
		f := &Frame{code: fr.code, regs: append([]Val(nil), regs...), blk: blk, ins: fr.ins}
		e.stores = append([]store(nil), base...)
		vals[side] = e.enter(f, side, stop)
		stores[side] = e.stores
	}
	// stores, older ones first
	e.stores = nil
	for side := 0; side < 2; side++ {
		for _, s := range stores[side] {
			if e.find(s.o, s.i) != nil {
				continue
			}
			var v [2]Val
			for k := range v {
				v[k] = s.o.C[s.i]
				for j := range stores[k] {
					if x := &stores[k][j]; x.o == s.o && x.i == s.i {
						v[k] = x.v
					}
				}
			}
			s.v = e.ite(cond, v[0], v[1], s.w)
			e.stores = append(e.stores, s)
		}
	}
	if len(vals[0]) != len(vals[1]) {
		e.abort()
	}
	out := make([]Val, len(vals[0]))
	for i := range out {
		out[i] = e.ite(cond, vals[0][i], vals[1][i], e.width(fr.code, stop, i))
	}
	e.depth--
	return out
}

func (e *merger) width(code *Code, stop int32, i int) uint8 {
	if stop == exitBlock {
		return cellW(e.m.LS.of(code.results.At(i).Type()))
	}
	return code.blocks[stop].phis[i].w
}

func (e *merger) ite(c *sym.Term, a, b Val, w uint8) Val {
	m := e.m
	if a.T == nil && b.T == nil && a.N == b.N && samePtr(a.P, b.P) {
		return a
	}
	if a.P != nil || b.P != nil || w == 255 {
		e.abort()
	}
	m.iteW = w
	return m.canon(m.ite(c, a, b))
}

func (e *merger) find(o *Object, i int) *store {
	for k := range e.stores {
		if s := &e.stores[k]; s.o == o && s.i == i {
			return s
		}
	}
	return nil
}

// enter follows a successor: it stops there if that is the place to stop at.
func (e *merger) enter(fr *Frame, side int, stop int32) []Val {
	b := &fr.code.blocks[fr.blk]
	if b.succs[side] == stop {
		at := b.predAt[side]
		phis := fr.code.blocks[stop].phis
		vals := make([]Val, len(phis))
		for i := range phis {
			vals[i] = e.m.get(fr, phis[i].edges[at])
		}
		return vals
	}
	e.m.jump(fr, side)
	return e.run(fr, stop)
}

// run executes fr up to stop.
func (e *merger) run(fr *Frame, stop int32) []Val {
	m := e.m
	for {
		in := &fr.code.blocks[fr.blk].ins[fr.pc]
		m.steps++
		if e.budget--; e.budget < 0 {
			e.abort()
		}
		switch in.op {
		case oNop:
			fr.pc++
		case oBin:
			v, ok := m.binop(e.g, in, m.get(fr, in.a), m.get(fr, in.b))
			if !ok {
				e.abort()
			}
			fr.regs[in.dst] = v
			fr.pc++
		case oUn:
			fr.regs[in.dst] = m.unop(in, m.get(fr, in.a))
			fr.pc++
		case oDeref:
			p := m.get(fr, in.a)
			n := 1
			if in.lay.aggr {
				n = in.lay.n
			}
			m.iteW = cellW(in.lay)
			var cs []Val
			switch q := p.P.(type) {
			case *Object:
				cs = m.loadCells(p, n)
				for i := range cs {
					if s := e.find(q, int(p.N)+i); s != nil {
						cs[i] = s.v
					}
				}
			case *SPtr:
				if e.touches(q.Obj) {
					e.abort()
				}
				cs = m.loadCells(p, n)
			default:
				e.abort()
			}
			if in.lay.aggr {
				fr.regs[in.dst] = Val{P: cs}
			} else {
				fr.regs[in.dst] = cs[0]
			}
			fr.pc++
		case oStore:
			p := m.get(fr, in.a)
			o, ok := p.P.(*Object)
			if !ok || in.lay.aggr || m.Cfg.Race {
				e.abort()
			}
			v := m.get(fr, in.b)
			if s := e.find(o, int(p.N)); s != nil {
				s.v = v
			} else {
				e.stores = append(e.stores, store{o, int(p.N), v, cellW(in.lay)})
			}
			fr.pc++
		case oCopy:
			fr.regs[in.dst] = m.get(fr, in.a)
			fr.pc++
		case oConvert:
			switch m.get(fr, in.a).P.(type) {
			case nil:
			default:
				e.abort()
			}
			fr.regs[in.dst] = m.convert(in, m.get(fr, in.a))
			fr.pc++
		case oFieldAddr:
			p := m.get(fr, in.a)
			if p.P == nil {
				e.abort()
			}
			fr.regs[in.dst] = m.ptrAdd(p, in.n)
			fr.pc++
		case oField:
			c := m.get(fr, in.a).P.([]Val)
			if in.lay.aggr {
				fr.regs[in.dst] = Val{P: c[in.n : in.n+in.m : in.n+in.m]}
			} else {
				fr.regs[in.dst] = c[in.n]
			}
			fr.pc++
		case oIndexAddr:
			m.indexAddr(e.g, fr, in)
		case oIndex:
			m.index(e.g, fr, in)
		case oExtract:
			fr.regs[in.dst] = m.get(fr, in.a).P.([]Val)[in.n]
			fr.pc++
		case oCall:
			e.call(fr, in)
		case oRunDefers:
			fr.pc++
		case oJump:
			if fr.code.blocks[fr.blk].succs[0] == stop {
				return e.enter(fr, 0, stop)
			}
			m.jump(fr, 0)
		case oIf:
			v := m.get(fr, in.a)
			side := 0
			if v.T != nil {
				c := m.C.Subst(v.T)
				switch {
				case c.IsTrue() || m.pcset[c]:
				case c.IsFalse() || m.pcset[m.C.Not(c)]:
					side = 1
				default:
					j := fr.code.ipdoms()[fr.blk]
					if j == -2 {
						e.abort()
					}
					vals := e.branch(fr, c, j)
					if j == stop {
						return vals
					}
					if j == exitBlock {
						e.abort()
					}
					for i := range vals {
						fr.regs[fr.code.blocks[j].phis[i].dst] = vals[i]
					}
					fr.blk, fr.pc = j, 0
					continue
				}
			} else if v.N == 0 {
				side = 1
			}
			if fr.code.blocks[fr.blk].succs[side] == stop {
				return e.enter(fr, side, stop)
			}
			m.jump(fr, side)
		case oReturn:
			if stop != exitBlock {
				e.abort()
			}
			vals := make([]Val, len(in.args))
			for i, a := range in.args {
				vals[i] = m.get(fr, a)
			}
			return vals
		default:
			e.abort()
		}
	}
}

func (e *merger) touches(o *Object) bool {
	for i := range e.stores {
		if e.stores[i].o == o {
			return true
		}
	}
	return false
}

func (e *merger) call(fr *Frame, in *Ins) {
	m := e.m
	ci := in.call
	if ci.builtin == "len" {
		if s, ok := m.get(fr, ci.args[0]).P.(*Slice); ok {
			fr.regs[in.dst] = Val{N: uint64(s.Len)}
			fr.pc++
			return
		}
	}
	if ci.builtin != "" || ci.method != nil || ci.intr != nil || ci.fn == nil || m.redirect(ci.fn) != nil {
		e.abort()
	}
	code := m.code(ci.fn)
	if code.blocks == nil || code.recover >= 0 {
		e.abort()
	}
	if e.depth++; e.depth > 40 {
		e.abort()
	}
	f := &Frame{code: code, regs: make([]Val, code.nreg), ins: in}
	for i, a := range ci.args {
		f.regs[i] = m.get(fr, a)
	}
	if m.L.repo(code.pkg) && !m.Funcs[code.name] {
		m.Funcs[code.name] = true
	}
	vals := e.run(f, exitBlock)
	if in.dst >= 0 {
		switch len(vals) {
		case 0:
		case 1:
			fr.regs[in.dst] = vals[0]
		default:
			fr.regs[in.dst] = Val{P: vals}
		}
	}
	fr.pc++
	e.depth--
}
