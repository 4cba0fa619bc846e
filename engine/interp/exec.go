package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) get(fr *Frame, o opnd) Val {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.code.consts[^o]
}

// ---- panics ----

// goPanic starts a panic in the current goroutine.
func (m *Machine) goPanic(g *Gor, v Val, msg string) {
	if m.exploring {
		panic(mergeAbort{})
	}
	p := &panicking{V: v, Msg: msg, Where: m.where(g)}
	g.Panic = p
	m.unwind(g)
}

func (m *Machine) rtPanic(g *Gor, format string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	m.goPanic(g, Val{P: &Iface{T: m.L.rtErr, V: Val{P: []Val{{P: msg}}}}}, msg)
}

func (m *Machine) where(g *Gor) string {
	var b strings.Builder
	for i := len(g.Frames) - 1; i >= 0 && i > len(g.Frames)-7; i-- {
		f := g.Frames[i]
		pos := ""
		if f.pc >= 0 && int(f.blk) < len(f.code.blocks) && f.pc < len(f.code.blocks[f.blk].ins) {
			if s := f.code.blocks[f.blk].ins[f.pc].src; s != nil {
				pos = m.L.Fset.Position(s.Pos()).String()
			}
		}
		fmt.Fprintf(&b, "%s (%s); ", f.code.name, pos)
	}
	return b.String()
}

// unwind runs the deferred calls of the innermost frame, or leaves it.
func (m *Machine) unwind(g *Gor) {
	for {
		if len(g.Frames) == 0 {
			p := g.Panic
			m.pathViolation("panic", "panic: "+p.Msg+" at "+p.Where)
			return
		}
		fr := g.Frames[len(g.Frames)-1]
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.pan = g.Panic
			m.callDeferred(g, fr, d)
			return
		}
		// leave the frame
		m.popFrame(g)
		if fr.try != nil {
			msg := g.Panic.Msg
			g.Panic = nil
			fr.try(msg)
			return
		}
	}
}

func (m *Machine) popFrame(g *Gor) {
	fr := g.Frames[len(g.Frames)-1]
	g.Frames = g.Frames[:len(g.Frames)-1]
	if fr.isDef && fr.pan != nil {
		_ = fr
	}
	m.putRegs(fr)
}

func (m *Machine) putRegs(fr *Frame) {
	n := len(fr.regs)
	if n > 0 && n < 256 {
		for i := range fr.regs {
			fr.regs[i] = Val{}
		}
		m.freeRegs[n] = append(m.freeRegs[n], fr.regs)
	}
	fr.regs = nil
}

func (m *Machine) getRegs(n int) []Val {
	if n < 256 {
		if l := m.freeRegs[n]; len(l) > 0 {
			r := l[len(l)-1]
			m.freeRegs[n] = l[:len(l)-1]
			return r
		}
	}
	return make([]Val, n)
}

func (m *Machine) callDeferred(g *Gor, fr *Frame, d deferred) {
	if d.bi != "" {
		m.builtin(g, fr, d.ci, d.bi, d.args, nil)
		m.afterDeferred(g)
		return
	}
	m.deferring = true
	m.callValue(g, nil, d.fn, d.args, d.ci)
	m.deferring = false
}

// afterDeferred goes on after a deferred call of the top frame has returned.
func (m *Machine) afterDeferred(g *Gor) {
	fr := g.Frames[len(g.Frames)-1]
	if fr.pan != nil {
		if fr.pan.Recovered {
			if g.Panic == fr.pan {
				g.Panic = nil
			}
			fr.pan = nil
			// run the remaining deferred calls, then return to the caller
			if fr.code.recover >= 0 {
				m.runRest(g, fr, func() {
					fr.blk, fr.pc = int32(fr.code.recover), 0
				})
			} else {
				m.runRest(g, fr, func() {
					z := m.LS.zero(fr.code.results)
					if fr.code.results.Len() == 1 {
						z = m.LS.zero(fr.code.results.At(0).Type())
					}
					m.doReturn(g, z)
				})
			}
			return
		}
		m.unwind(g)
		return
	}
	if fr.rest != nil {
		m.runRest(g, fr, fr.rest)
		return
	}
	// RunDefers: execute it again
}

func (m *Machine) runRest(g *Gor, fr *Frame, done func()) {
	if len(fr.defers) > 0 {
		fr.rest = done
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.callDeferred(g, fr, d)
		return
	}
	fr.rest = nil
	done()
}

// ---- calls ----

func (m *Machine) pushFrame(g *Gor, ins *Ins, code *Code, free []Val, args []Val) *Frame {
	if code.blocks == nil {
		m.unsupported("call of %s, which has no body", code.name)
	}
	if len(g.Frames) > 4000 {
		m.end("bound", "call depth")
	}
	fr := &Frame{code: code, regs: m.getRegs(code.nreg), ins: ins}
	copy(fr.regs, args)
	copy(fr.regs[code.params:], free)
	if m.deferring {
		fr.isDef = true
		m.deferring = false
	}
	g.Frames = append(g.Frames, fr)
	if m.L.repo(code.pkg) && !m.Funcs[code.name] {
		m.Funcs[code.name] = true
	}
	return fr
}

// callValue calls a function value. ins is the call instruction (nil if deferred or go).
func (m *Machine) callValue(g *Gor, ins *Ins, f Val, args []Val, ci *callInfo) {
	c, _ := f.P.(*Closure)
	if c == nil {
		m.deferring = false
		m.rtPanic(g, "invalid memory address or nil pointer dereference (nil function)")
		return
	}
	if c.Recv != nil {
		args = append([]Val{*c.Recv}, args...)
	}
	if c.Intr != nil {
		d := m.deferring
		m.deferring = false
		m.callIntr(g, ins, c.Intr, c.Fn, args, ci, d)
		return
	}
	fn := c.Fn
	if r := m.redirect(fn); r != nil {
		fn = r
		if in := m.intrinsicFor(fn); in != nil {
			d := m.deferring
			m.deferring = false
			m.callIntr(g, ins, in, fn, args, ci, d)
			return
		}
	}
	m.pushFrame(g, ins, m.code(fn), c.Free, args)
}

type Intrinsic struct {
	name string
	// f returns false if the goroutine has to wait: the instruction is tried again.
	f func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool)
	// sync marks scheduling points
	sync bool
}

func (m *Machine) callIntr(g *Gor, ins *Ins, in *Intrinsic, fn *ssa.Function, args []Val, ci *callInfo, deferred bool) {
	nf := len(g.Frames)
	pan := g.Panic
	v, ok := in.f(m, g, args, ci)
	if !ok {
		if deferred {
			m.unsupported("deferred call of %s has to wait", in.name)
		}
		return // blocked, or a frame was pushed, or a panic started
	}
	if len(g.Frames) != nf || g.Panic != pan {
		return
	}
	if deferred {
		m.afterDeferred(g)
		return
	}
	if ins != nil {
		fr := g.Frames[nf-1]
		if ins.dst >= 0 {
			fr.regs[ins.dst] = v
		}
		fr.pc++
	}
}

func (m *Machine) doReturn(g *Gor, v Val) {
	fr := g.Frames[len(g.Frames)-1]
	g.Frames = g.Frames[:len(g.Frames)-1]
	ins, isDef, onRet := fr.ins, fr.isDef, fr.onRet
	m.putRegs(fr)
	if onRet != nil {
		onRet(v)
		return
	}
	if isDef {
		m.afterDeferred(g)
		return
	}
	if len(g.Frames) == 0 {
		g.Result = v
		g.State = gDone
		return
	}
	top := g.Frames[len(g.Frames)-1]
	if ins != nil {
		if ins.dst >= 0 {
			top.regs[ins.dst] = v
		}
		top.pc++
	}
}

// ---- main loop ----

// run executes g until it waits, ends, or gives way.
func (m *Machine) run(g *Gor) {
	m.cur = g
	for g.State == gRun && len(g.Frames) > 0 {
		fr := g.Frames[len(g.Frames)-1]
		in := &fr.code.blocks[fr.blk].ins[fr.pc]
		m.steps++
		if m.steps&0xffff == 0 {
			m.limits()
		}
		switch in.op {
		case oNop:
			fr.pc++
		case oAlloc:
			o := m.newObj(in.typ2, "")
			fr.regs[in.dst] = Val{P: o}
			fr.pc++
		case oBin:
			if v, ok := m.binop(g, in, m.get(fr, in.a), m.get(fr, in.b)); ok {
				fr.regs[in.dst] = v
				fr.pc++
			}
		case oUn:
			fr.regs[in.dst] = m.unop(in, m.get(fr, in.a))
			fr.pc++
		case oDeref:
			p := m.get(fr, in.a)
			if o, ok := p.P.(*Object); ok && !in.lay.aggr && !m.Cfg.Race {
				fr.regs[in.dst] = o.C[p.N]
				fr.pc++
				continue
			}
			if p.P == nil {
				m.rtPanic(g, "invalid memory address or nil pointer dereference")
				continue
			}
			m.iteW = cellW(in.lay)
			if in.lay.aggr {
				fr.regs[in.dst] = Val{P: m.loadCells(p, in.lay.n)}
			} else {
				fr.regs[in.dst] = m.loadCells(p, 1)[0]
			}
			fr.pc++
		case oStore:
			p := m.get(fr, in.a)
			v := m.get(fr, in.b)
			if p.P == nil {
				m.rtPanic(g, "invalid memory address or nil pointer dereference")
				continue
			}
			if in.lay.aggr {
				if in.lay.n > 0 {
					m.storeCells(p, v.P.([]Val))
				}
			} else if o, ok := p.P.(*Object); ok && !m.Cfg.Race {
				m.set(o, int(p.N), v)
			} else {
				m.iteW = cellW(in.lay)
				m.storeCells(p, []Val{v})
			}
			fr.pc++
		case oCopy:
			fr.regs[in.dst] = m.get(fr, in.a)
			fr.pc++
		case oConvert:
			fr.regs[in.dst] = m.convert(in, m.get(fr, in.a))
			fr.pc++
		case oMakeIface:
			fr.regs[in.dst] = Val{P: &Iface{T: in.typ2, V: m.get(fr, in.a)}}
			fr.pc++
		case oMakeClosure:
			f := m.get(fr, in.a).P.(*Closure)
			c := &Closure{Fn: f.Fn, Intr: f.Intr}
			for _, b := range in.args {
				c.Free = append(c.Free, m.get(fr, b))
			}
			fr.regs[in.dst] = Val{P: c}
			fr.pc++
		case oMakeMap:
			m.nobj++
			fr.regs[in.dst] = Val{P: &MapObj{ID: m.nobj, Epoch: m.epoch, Idx: map[string]int{}, KT: in.typ, VT: in.typ2}}
			fr.pc++
		case oMakeChan:
			n := m.concInt(m.get(fr, in.a), 64, "channel size")
			m.nobj++
			fr.regs[in.dst] = Val{P: &ChanObj{ID: m.nobj, Epoch: m.epoch, Cap: int(n), Elem: in.typ2}}
			fr.pc++
		case oMakeSlice:
			m.makeSlice(g, fr, in)
		case oSlice:
			m.sliceOp(g, fr, in)
		case oFieldAddr:
			p := m.get(fr, in.a)
			if p.P == nil {
				m.rtPanic(g, "invalid memory address or nil pointer dereference")
				continue
			}
			fr.regs[in.dst] = m.ptrAdd(p, in.n)
			fr.pc++
		case oField:
			c := m.get(fr, in.a).P.([]Val)
			if in.lay.aggr {
				fr.regs[in.dst] = Val{P: c[in.n : in.n+in.m : in.n+in.m]}
			} else {
				fr.regs[in.dst] = c[in.n]
			}
			fr.pc++
		case oIndexAddr:
			m.indexAddr(g, fr, in)
		case oIndex:
			m.index(g, fr, in)
		case oLookup:
			m.lookup(g, fr, in)
		case oMapUpdate:
			m.mapUpdate(g, m.get(fr, in.a), m.get(fr, in.b), m.get(fr, in.c), fr)
		case oRange:
			m.rangeOp(fr, in)
		case oNext:
			m.next(fr, in)
		case oTypeAssert:
			m.typeAssert(g, fr, in)
		case oExtract:
			fr.regs[in.dst] = m.get(fr, in.a).P.([]Val)[in.n]
			fr.pc++
		case oSliceToArr:
			s := sl(m.get(fr, in.a))
			if s.Len < in.n {
				m.rtPanic(g, "cannot convert slice with length %d to array or pointer to array with length %d", s.Len, in.n)
				continue
			}
			if s.Obj == nil {
				fr.regs[in.dst] = Val{}
			} else {
				fr.regs[in.dst] = s.at(0)
			}
			fr.pc++
		case oJump:
			m.jump(fr, 0)
		case oIf:
			v := m.get(fr, in.a)
			t := v.N != 0
			if v.T != nil {
				if m.tryMerge(g, fr, v.T) {
					continue
				}
				t = m.decide(v.T)
			}
			if t {
				m.jump(fr, 0)
			} else {
				m.jump(fr, 1)
			}
		case oReturn:
			var v Val
			switch len(in.args) {
			case 0:
			case 1:
				v = m.get(fr, in.args[0])
			default:
				r := make([]Val, len(in.args))
				for i, a := range in.args {
					r[i] = m.get(fr, a)
				}
				v = Val{P: r}
			}
			m.doReturn(g, v)
		case oRunDefers:
			if len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				m.callDeferred(g, fr, d)
				continue
			}
			fr.pc++
		case oPanic:
			v := m.get(fr, in.a)
			m.goPanic(g, v, m.show(v))
		case oGo:
			if !m.schedPoint(g) {
				return
			}
			m.goStmt(g, fr, in)
			fr.pc++
		case oDefer:
			m.deferStmt(g, fr, in)
			fr.pc++
		case oSend, oRecv, oSelect:
			if !m.schedPoint(g) {
				return
			}
			switch in.op {
			case oSend:
				m.send(g, fr, in)
			case oRecv:
				m.recv(g, fr, in)
			default:
				m.selectOp(g, fr, in)
			}
		case oCall:
			m.call(g, fr, in)
			if g.yield {
				g.yield = false
				return
			}
		default:
			m.unsupported("instruction %T", in.src)
		}
	}
}

func cellW(l *layout) uint8 {
	switch l.kind {
	case kInt:
		return l.w
	case kBool:
		return 0
	}
	return 255
}

func (m *Machine) jump(fr *Frame, i int) {
	b := &fr.code.blocks[fr.blk]
	nb := b.succs[i]
	at := b.predAt[i]
	t := &fr.code.blocks[nb]
	switch len(t.phis) {
	case 0:
	case 1:
		fr.regs[t.phis[0].dst] = m.get(fr, t.phis[0].edges[at])
	default:
		var buf [16]Val
		vs := buf[:0]
		for k := range t.phis {
			vs = append(vs, m.get(fr, t.phis[k].edges[at]))
		}
		for k := range t.phis {
			fr.regs[t.phis[k].dst] = vs[k]
		}
	}
	fr.blk, fr.pc = nb, 0
}

func (m *Machine) call(g *Gor, fr *Frame, in *Ins) {
	ci := in.call
	var args []Val
	if ci.builtin != "" {
		args = make([]Val, len(ci.args))
		for i, a := range ci.args {
			args[i] = m.get(fr, a)
		}
		if len(args) > 0 && (ci.builtin == "len" || ci.builtin == "close") {
			// others see what happens to a channel
			if _, ok := args[0].P.(*ChanObj); ok && !m.schedPoint(g) {
				g.yield = true
				return
			}
		}
		m.builtin(g, fr, ci, ci.builtin, args, in)
		return
	}
	if ci.intr != nil && ci.intr.sync {
		if !m.schedPoint(g) {
			g.yield = true
			return
		}
	}
	if ci.method != nil {
		recv := m.get(fr, ci.val)
		if recv.P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference (nil interface)")
			return
		}
		itf := recv.P.(*Iface)
		fn := m.method(itf.T, ci.method)
		args = make([]Val, 0, len(ci.args)+1)
		args = append(args, itf.V)
		for _, a := range ci.args {
			args = append(args, m.get(fr, a))
		}
		m.callValue(g, in, Val{P: m.funcVal(fn)}, args, ci)
		return
	}
	args = make([]Val, len(ci.args))
	for i, a := range ci.args {
		args[i] = m.get(fr, a)
	}
	if ci.intr != nil {
		m.callIntr(g, in, ci.intr, ci.fn, args, ci, false)
		return
	}
	if ci.fn != nil {
		m.pushFrame(g, in, m.code(ci.fn), nil, args)
		return
	}
	f := m.get(fr, ci.val)
	if c, ok := f.P.(*Closure); ok && c.Intr != nil && c.Intr.sync {
		if !m.schedPoint(g) {
			g.yield = true
			return
		}
	}
	m.callValue(g, in, f, args, ci)
}

func (m *Machine) method(t types.Type, f *types.Func) *ssa.Function {
	k := mkey{t, f.Name(), nil}
	if fn := m.mcache[k]; fn != nil {
		return fn
	}
	m.L.mu.Lock()
	fn := m.L.Prog.LookupMethod(t, f.Pkg(), f.Name())
	m.L.mu.Unlock()
	if fn == nil {
		m.unsupported("method %s of %s", f.Name(), t)
	}
	m.mcache[k] = fn
	return fn
}

func (m *Machine) deferStmt(g *Gor, fr *Frame, in *Ins) {
	ci := in.call
	d := deferred{ci: ci}
	for _, a := range ci.args {
		d.args = append(d.args, m.get(fr, a))
	}
	switch {
	case ci.builtin != "":
		d.bi = ci.builtin
	case ci.method != nil:
		recv := m.get(fr, ci.val)
		if recv.P == nil {
			m.rtPanic(g, "nil interface in defer")
			return
		}
		itf := recv.P.(*Iface)
		d.fn = Val{P: m.funcVal(m.method(itf.T, ci.method))}
		d.args = append([]Val{itf.V}, d.args...)
	case ci.fn != nil:
		d.fn = Val{P: m.funcVal(ci.fn)}
	default:
		d.fn = m.get(fr, ci.val)
	}
	fr.defers = append(fr.defers, d)
}

// ---- operators ----

func signExt(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (m *Machine) binop(g *Gor, in *Ins, a, b Val) (Val, bool) {
	switch in.k {
	case kInt:
		if a.T == nil && b.T == nil {
			return m.binConst(g, in, a.N, b.N)
		}
		v, ok := m.binSym(g, in, a, b)
		if ok && in.w == 8 {
			v = m.canon(v)
		}
		return v, ok
	case kBool:
		switch in.tok {
		case token.EQL, token.NEQ:
			if a.T == nil && b.T == nil {
				return bval((a.N == b.N) == (in.tok == token.EQL)), true
			}
			t := m.C.Eq(m.tb(a), m.tb(b))
			if in.tok == token.NEQ {
				t = m.C.Not(t)
			}
			return tv(t), true
		case token.AND, token.LAND:
			return tv(m.C.And(m.tb(a), m.tb(b))), true
		case token.OR, token.LOR:
			return tv(m.C.Or(m.tb(a), m.tb(b))), true
		}
	case kFloat:
		return m.floatOp(in, a, b), true
	case kString:
		return m.stringOp(in, a, b), true
	}
	switch in.tok {
	case token.EQL:
		return m.equal(g, in.typ2, a, b)
	case token.NEQ:
		v, ok := m.equal(g, in.typ2, a, b)
		if !ok {
			return v, false
		}
		return tv(m.C.Not(m.tb(v))), true
	}
	m.unsupported("operator %s", in.tok)
	return Val{}, false
}

func bval(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}

func (m *Machine) binConst(g *Gor, in *Ins, a, b uint64) (Val, bool) {
	w := in.w
	mk := maskw(w)
	switch in.tok {
	case token.ADD:
		return Val{N: (a + b) & mk}, true
	case token.SUB:
		return Val{N: (a - b) & mk}, true
	case token.MUL:
		return Val{N: (a * b) & mk}, true
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic(g, "integer divide by zero")
			return Val{}, false
		}
		if in.sgn {
			x, y := signExt(a, w), signExt(b, w)
			if y == -1 {
				if in.tok == token.QUO {
					return Val{N: uint64(-x) & mk}, true
				}
				return Val{}, true
			}
			if in.tok == token.QUO {
				return Val{N: uint64(x/y) & mk}, true
			}
			return Val{N: uint64(x%y) & mk}, true
		}
		if in.tok == token.QUO {
			return Val{N: a / b}, true
		}
		return Val{N: a % b}, true
	case token.AND:
		return Val{N: a & b}, true
	case token.OR:
		return Val{N: a | b}, true
	case token.XOR:
		return Val{N: a ^ b}, true
	case token.AND_NOT:
		return Val{N: a &^ b}, true
	case token.SHL, token.SHR:
		if in.comma && signExt(b, uint8(in.n)) < 0 {
			m.rtPanic(g, "negative shift amount")
			return Val{}, false
		}
		if in.tok == token.SHL {
			if b >= uint64(w) {
				return Val{}, true
			}
			return Val{N: a << b & mk}, true
		}
		if in.sgn {
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			return Val{N: uint64(signExt(a, w)>>b) & mk}, true
		}
		if b >= uint64(w) {
			return Val{}, true
		}
		return Val{N: a >> b}, true
	case token.EQL:
		return bval(a == b), true
	case token.NEQ:
		return bval(a != b), true
	}
	var lt, gt bool
	if in.sgn {
		x, y := signExt(a, w), signExt(b, w)
		lt, gt = x < y, x > y
	} else {
		lt, gt = a < b, a > b
	}
	switch in.tok {
	case token.LSS:
		return bval(lt), true
	case token.LEQ:
		return bval(!gt), true
	case token.GTR:
		return bval(gt), true
	case token.GEQ:
		return bval(!lt), true
	}
	m.unsupported("operator %s", in.tok)
	return Val{}, false
}

func (m *Machine) binSym(g *Gor, in *Ins, a, b Val) (Val, bool) {
	c := m.C
	w := in.w
	if in.tok == token.SHL || in.tok == token.SHR {
		x := m.tm(a, w)
		y := m.tm(b, uint8(in.n))
		if in.comma {
			neg := c.Slt(y, c.Const(y.W, 0))
			if !neg.IsFalse() && m.decide(neg) {
				m.rtPanic(g, "negative shift amount")
				return Val{}, false
			}
		}
		// bring the count to the width of the operand
		switch {
		case y.W < w:
			y = c.ZExt(y, w)
		case y.W > w:
			big := c.Not(c.Ult(y, c.Const(y.W, uint64(w))))
			y = c.Ite(big, c.Const(w, uint64(w)), c.Trunc(y, w))
		}
		op := sym.OpShl
		if in.tok == token.SHR {
			op = sym.OpLShr
			if in.sgn {
				op = sym.OpAShr
			}
		}
		return tv(c.Bin(op, x, y)), true
	}
	x, y := m.tm(a, w), m.tm(b, w)
	if x.IsConst() && y.IsConst() {
		return m.binConst(g, in, x.Val, y.Val)
	}
	switch in.tok {
	case token.ADD:
		return tv(c.Bin(sym.OpAdd, x, y)), true
	case token.SUB:
		return tv(c.Bin(sym.OpSub, x, y)), true
	case token.MUL:
		return tv(c.Bin(sym.OpMul, x, y)), true
	case token.AND:
		return tv(c.Bin(sym.OpAnd, x, y)), true
	case token.OR:
		return tv(c.Bin(sym.OpOr, x, y)), true
	case token.XOR:
		return tv(c.Bin(sym.OpXor, x, y)), true
	case token.AND_NOT:
		return tv(c.Bin(sym.OpAnd, x, c.NotBits(y))), true
	case token.QUO, token.REM:
		z := c.Eq(y, c.Const(w, 0))
		if !z.IsFalse() && m.decide(z) {
			m.rtPanic(g, "integer divide by zero")
			return Val{}, false
		}
		x, y = c.Subst(x), c.Subst(y)
		op := sym.OpUDiv
		switch {
		case in.sgn && in.tok == token.QUO:
			op = sym.OpSDiv
		case in.sgn:
			op = sym.OpSRem
		case in.tok == token.REM:
			op = sym.OpURem
		}
		return tv(c.Bin(op, x, y)), true
	case token.EQL:
		return tv(m.eqT(x, y)), true
	case token.NEQ:
		return tv(c.Not(m.eqT(x, y))), true
	}
	lt := c.Ult
	if in.sgn {
		lt = c.Slt
	}
	switch in.tok {
	case token.LSS:
		return tv(lt(x, y)), true
	case token.LEQ:
		return tv(c.Not(lt(y, x))), true
	case token.GTR:
		return tv(lt(y, x)), true
	case token.GEQ:
		return tv(c.Not(lt(x, y))), true
	}
	m.unsupported("operator %s", in.tok)
	return Val{}, false
}

func (m *Machine) eqT(x, y *sym.Term) *sym.Term { return m.C.Eq(x, y) }

func (m *Machine) floatOp(in *Ins, a, b Val) Val {
	if a.T != nil || b.T != nil {
		m.unsupported("symbolic float")
	}
	var x, y float64
	if in.w == 32 {
		x, y = float64(math.Float32frombits(uint32(a.N))), float64(math.Float32frombits(uint32(b.N)))
	} else {
		x, y = math.Float64frombits(a.N), math.Float64frombits(b.N)
	}
	enc := func(f float64) Val {
		if in.w == 32 {
			return Val{N: uint64(math.Float32bits(float32(f)))}
		}
		return Val{N: math.Float64bits(f)}
	}
	switch in.tok {
	case token.ADD:
		return enc(x + y)
	case token.SUB:
		return enc(x - y)
	case token.MUL:
		return enc(x * y)
	case token.QUO:
		return enc(x / y)
	case token.EQL:
		return bval(x == y)
	case token.NEQ:
		return bval(x != y)
	case token.LSS:
		return bval(x < y)
	case token.LEQ:
		return bval(x <= y)
	case token.GTR:
		return bval(x > y)
	case token.GEQ:
		return bval(x >= y)
	}
	m.unsupported("float operator %s", in.tok)
	return Val{}
}

// strCells is the content of a string.
func strCells(v Val) ([]Val, bool) {
	switch s := v.P.(type) {
	case string:
		r := make([]Val, len(s))
		for i := range r {
			r[i] = Val{N: uint64(s[i])}
		}
		return r, true
	case *SymStr:
		return s.C, true
	}
	return nil, v.P == nil
}

func (m *Machine) stringOp(in *Ins, a, b Val) Val {
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		switch in.tok {
		case token.ADD:
			return Val{P: x + y}
		case token.EQL:
			return bval(x == y)
		case token.NEQ:
			return bval(x != y)
		case token.LSS:
			return bval(x < y)
		case token.LEQ:
			return bval(x <= y)
		case token.GTR:
			return bval(x > y)
		case token.GEQ:
			return bval(x >= y)
		}
	}
	cx, _ := strCells(a)
	cy, _ := strCells(b)
	switch in.tok {
	case token.ADD:
		return mkStr(append(append([]Val(nil), cx...), cy...))
	case token.EQL, token.NEQ:
		t := m.C.True
		if len(cx) != len(cy) {
			t = m.C.False
		} else {
			for i := range cx {
				t = m.C.And(t, m.C.Eq(m.tm(cx[i], 8), m.tm(cy[i], 8)))
			}
		}
		if in.tok == token.NEQ {
			t = m.C.Not(t)
		}
		return tv(t)
	}
	m.unsupported("ordering of symbolic strings")
	return Val{}
}

func mkStr(c []Val) Val {
	b := make([]byte, len(c))
	for i, v := range c {
		if v.T != nil {
			return Val{P: &SymStr{c}}
		}
		b[i] = byte(v.N)
	}
	return Val{P: string(b)}
}

// equal compares values of any comparable type.
func (m *Machine) equal(g *Gor, t types.Type, a, b Val) (Val, bool) {
	l := m.LS.of(t)
	switch l.kind {
	case kInt:
		return tv(m.C.Eq(m.tm(a, l.w), m.tm(b, l.w))), true
	case kBool:
		return tv(m.C.Eq(m.tb(a), m.tb(b))), true
	case kFloat:
		return bval(a.N == b.N), true
	case kString:
		return m.stringOp(&Ins{tok: token.EQL}, a, b), true
	case kPtr, kUnsafe:
		if a.P == nil || b.P == nil {
			return bval(a.P == nil && b.P == nil), true
		}
		_, s1 := a.P.(*SPtr)
		_, s2 := b.P.(*SPtr)
		if s1 || s2 {
			m.unsupported("comparison of symbolic pointers")
		}
		return bval(samePtr(a.P, b.P) && a.N == b.N), true
	case kSlice, kMap, kFunc:
		return bval(a.P == nil && b.P == nil || samePtr(a.P, b.P)), true
	case kChan:
		return bval(samePtr(a.P, b.P)), true
	case kIface:
		if a.P == nil || b.P == nil {
			return bval(a.P == nil && b.P == nil), true
		}
		// comparison with a concrete value is done through an interface by ssa
		x, y := a.P.(*Iface), b.P.(*Iface)
		if !m.identical(x.T, y.T) {
			return bval(false), true
		}
		if !types.Comparable(x.T) {
			m.rtPanic(g, "comparing uncomparable type %s", x.T)
			return Val{}, false
		}
		return m.equal(g, x.T, x.V, y.V)
	case kStruct:
		u := t.Underlying().(*types.Struct)
		ca, cb := a.P.([]Val), b.P.([]Val)
		r := m.C.True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fl := m.LS.of(ft)
			v, ok := m.equal(g, ft, cellsVal(fl, ca[l.off[i]:]), cellsVal(fl, cb[l.off[i]:]))
			if !ok {
				return v, false
			}
			r = m.C.And(r, m.tb(v))
		}
		return tv(r), true
	case kArray:
		u := t.Underlying().(*types.Array)
		ca, cb := a.P.([]Val), b.P.([]Val)
		el := m.LS.of(u.Elem())
		r := m.C.True
		for i := 0; i < int(u.Len()); i++ {
			v, ok := m.equal(g, u.Elem(), cellsVal(el, ca[i*el.n:]), cellsVal(el, cb[i*el.n:]))
			if !ok {
				return v, false
			}
			r = m.C.And(r, m.tb(v))
		}
		return tv(r), true
	}
	m.unsupported("comparison of %s", t)
	return Val{}, false
}

func cellsVal(l *layout, c []Val) Val {
	if l.aggr {
		return Val{P: c[:l.n:l.n]}
	}
	return c[0]
}

func (m *Machine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := akey{a, b}
	if r, ok := m.acache[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	m.acache[k] = r
	return r
}

func (m *Machine) unop(in *Ins, a Val) Val {
	switch in.tok {
	case token.NOT:
		if a.T == nil {
			return bval(a.N == 0)
		}
		return tv(m.C.Not(m.tb(a)))
	case token.SUB:
		if in.k == kFloat {
			if in.w == 32 {
				return Val{N: uint64(math.Float32bits(-math.Float32frombits(uint32(a.N))))}
			}
			return Val{N: math.Float64bits(-math.Float64frombits(a.N))}
		}
		if a.T == nil {
			return Val{N: -a.N & maskw(in.w)}
		}
		return tv(m.C.Neg(m.tm(a, in.w)))
	case token.XOR:
		if a.T == nil {
			return Val{N: ^a.N & maskw(in.w)}
		}
		return tv(m.C.NotBits(m.tm(a, in.w)))
	}
	m.unsupported("operator %s", in.tok)
	return Val{}
}

func (m *Machine) convert(in *Ins, a Val) Val {
	from := m.LS.of(in.typ2)
	to := in.lay
	switch {
	case from.kind == kInt && to.kind == kInt:
		if a.T == nil {
			v := a.N
			if from.sgn {
				v = uint64(signExt(v, from.w))
			}
			return Val{N: v & maskw(to.w)}
		}
		t := m.tm(a, from.w)
		switch {
		case to.w < from.w:
			t = m.C.Trunc(t, to.w)
		case to.w > from.w && from.sgn:
			t = m.C.SExt(t, to.w)
		case to.w > from.w:
			t = m.C.ZExt(t, to.w)
		}
		return m.canon(tv(t))
	case from.kind == kInt && to.kind == kFloat:
		n := m.concInt(a, from.w, "integer converted to float")
		var f float64
		if from.sgn {
			f = float64(signExt(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			return Val{N: uint64(math.Float32bits(float32(f)))}
		}
		return Val{N: math.Float64bits(f)}
	case from.kind == kFloat && (to.kind == kFloat || to.kind == kInt):
		var f float64
		if from.w == 32 {
			f = float64(math.Float32frombits(uint32(a.N)))
		} else {
			f = math.Float64frombits(a.N)
		}
		if to.kind == kInt {
			if to.sgn {
				return Val{N: uint64(int64(f)) & maskw(to.w)}
			}
			return Val{N: uint64(f) & maskw(to.w)}
		}
		if to.w == 32 {
			return Val{N: uint64(math.Float32bits(float32(f)))}
		}
		return Val{N: math.Float64bits(f)}
	case from.kind == kString && to.kind == kSlice:
		if m.elemW(in.typ) != 8 {
			m.unsupported("string to runes")
		}
		c, _ := strCells(a)
		return m.mkSlice(append([]Val(nil), c...), "bytes of string")
	case from.kind == kSlice && to.kind == kString:
		if m.elemW(in.typ2) != 8 {
			m.unsupported("runes to string")
		}
		return mkStr(m.readSlice(a, 8))
	case from.kind == kInt && to.kind == kString:
		return Val{P: string(rune(signExt(m.concInt(a, from.w, "rune"), from.w)))}
	case to.kind == kUnsafe || from.kind == kUnsafe:
		if from.kind == kUnsafe && to.kind == kPtr && a.P != nil {
			// only a view of the same kind of cells
			el := m.LS.of(deref(in.typ))
			if o, ok := a.P.(*Object); ok && o.Typ != nil && el.kind == kInt {
				if w := m.cellWidth(o, int(a.N)); w == 8 && el.w > 8 && (m.L.GOARCH == "amd64" || m.L.GOARCH == "arm64") {
					return Val{P: &WPtr{o, el.w}, N: a.N}
				} else if w != 0 && w != el.w {
					m.unsupported("memory seen with another type")
				}
			} else if !ok {
				m.unsupported("unsafe pointer")
			}
		}
		return a
	case from.kind == to.kind:
		return a
	}
	m.unsupported("conversion of %s to %s", in.typ2, in.typ)
	return Val{}
}

func (m *Machine) cellWidth(o *Object, i int) uint8 {
	if i < len(o.C) && o.C[i].T != nil {
		return o.C[i].T.W
	}
	var f func(t types.Type) uint8
	f = func(t types.Type) uint8 {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return m.LS.of(t).w
		case *types.Array:
			return f(u.Elem())
		}
		return 0
	}
	return f(o.Typ)
}

func (m *Machine) elemW(t types.Type) uint8 {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return m.LS.of(s.Elem()).w
	}
	return 0
}

// ---- slices, indexing ----

// inRange checks 0 <= i < n (or <= n) and panics on the path where it fails.
func (m *Machine) idx64(v Val, w uint8, sgn bool) *sym.Term {
	t := m.tm(v, w)
	if w == 64 {
		return t
	}
	if sgn {
		return m.C.SExt(t, 64)
	}
	return m.C.ZExt(t, 64)
}

func (m *Machine) checkIndex(g *Gor, t *sym.Term, n int, what string) bool {
	ok := m.C.Ult(t, m.C.Const(64, uint64(n)))
	if ok.IsTrue() {
		return true
	}
	if !m.decide(ok) {
		m.rtPanic(g, "%s out of range [%s] with length %d", what, m.showT(t), n)
		return false
	}
	return true
}

func (m *Machine) showT(t *sym.Term) string {
	t = m.C.Subst(t)
	if t.IsConst() {
		return fmt.Sprint(int64(t.Val))
	}
	return "symbolic"
}

func (m *Machine) indexAddr(g *Gor, fr *Frame, in *Ins) {
	x := m.get(fr, in.a)
	iv := m.get(fr, in.b)
	if iv.T != nil {
		iv = m.norm(iv)
	}
	if iv.T == nil {
		i := int(iv.N)
		if in.w < 64 {
			if in.sgn {
				i = int(signExt(iv.N, in.w))
			}
		}
		if in.k == kSlice {
			s, _ := x.P.(*Slice)
			if s == nil {
				m.rtPanic(g, "index out of range [%d] with length 0", i)
				return
			}
			if uint(i) >= uint(s.Len) {
				m.rtPanic(g, "index out of range [%d] with length %d", i, s.Len)
				return
			}
			if s.Dims == nil {
				fr.regs[in.dst] = Val{P: s.Obj, N: uint64(s.Off + i*s.Stride)}
			} else {
				fr.regs[in.dst] = s.at(i)
			}
			fr.pc++
			return
		}
		if x.P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return
		}
		if uint(i) >= uint(in.m) {
			m.rtPanic(g, "index out of range [%d] with length %d", i, in.m)
			return
		}
		fr.regs[in.dst] = m.ptrAdd(x, i*in.n)
		fr.pc++
		return
	}
	t := m.idx64(iv, in.w, in.sgn)
	n := in.m
	if in.k == kSlice {
		n = sl(x).Len
	} else if x.P == nil {
		m.rtPanic(g, "invalid memory address or nil pointer dereference")
		return
	}
	if !m.checkIndex(g, t, n, "index") {
		return
	}
	t = m.C.Subst(t)
	// rows of tables by a drawn value
	if m.Cfg.Conc && !t.IsConst() && in.n > 1 && m.allDraws(t) && !simpleByte(m.C, t) {
		m.concretise(t)
		t = m.C.Subst(t)
	}
	var p Val
	if in.k == kSlice {
		s := sl(x)
		p = s.at(0)
		if t.IsConst() {
			p = m.ptrAdd(p, int(t.Val)*s.Stride)
		} else {
			p = m.ptrDim(p, t, s.Stride, n)
		}
	} else {
		if t.IsConst() {
			p = m.ptrAdd(x, int(t.Val)*in.n)
		} else {
			p = m.ptrDim(x, t, in.n, n)
		}
	}
	fr.regs[in.dst] = p
	fr.pc++
}

// simpleByte: data rather than a tag
func simpleByte(c *sym.Ctx, t *sym.Term) bool {
	if t.Hi > 255 {
		return false
	}
	b := c.Byte(t, 0)
	return b.Op == sym.OpVar || b.Op == sym.OpLin && len(b.A) > 1
}

func (m *Machine) index(g *Gor, fr *Frame, in *Ins) {
	x := m.get(fr, in.a)
	var cells []Val
	n := in.m
	if in.k == kString {
		cells, _ = strCells(x)
		n = len(cells)
		in2 := 1
		_ = in2
	} else {
		cells = x.P.([]Val)
	}
	stride := in.n
	if in.k == kString {
		stride = 1
	}
	t := m.idx64(m.get(fr, in.b), in.w, in.sgn)
	if !m.checkIndex(g, t, n, "index") {
		return
	}
	t = m.C.Subst(t)
	if t.IsConst() {
		fr.regs[in.dst] = cellsVal(in.lay, cells[int(t.Val)*stride:])
		fr.pc++
		return
	}
	o := &Object{C: cells}
	m.iteW = cellW(in.lay)
	if in.lay.aggr {
		m.unsupported("symbolic index into array value of aggregates")
	}
	fr.regs[in.dst] = m.loadDims(o, 0, []Dim{{t, stride, n}})
	fr.pc++
}

func (m *Machine) makeSlice(g *Gor, fr *Frame, in *Ins) {
	lv, cv := m.get(fr, in.a), m.get(fr, in.b)
	var n, c int64
	for i, v := range []Val{lv, cv} {
		if v.T != nil {
			t := m.idx64(v, 64, true)
			// huge or negative sizes panic
			okc := m.C.Ult(t, m.C.Const(64, 1<<40))
			if !m.decide(okc) {
				m.rtPanic(g, "makeslice: len out of range")
				return
			}
			v = Val{N: m.concInt(tv(m.C.Subst(t)), 64, "slice size")}
		}
		x := int64(v.N)
		if in.w < 64 && in.sgn {
			x = signExt(v.N, in.w)
		}
		if i == 0 {
			n = x
		} else {
			c = x
		}
	}
	if in.a == in.b {
		c = n
	}
	if n < 0 || n > 1<<40 {
		m.rtPanic(g, "makeslice: len out of range")
		return
	}
	if c < n || c > 1<<40 {
		m.rtPanic(g, "makeslice: cap out of range")
		return
	}
	if c > 1<<24 {
		m.end("bound", "allocation of %d elements", c)
	}
	o := m.newArray(in.typ2, int(c), "")
	fr.regs[in.dst] = Val{P: &Slice{Obj: o, Len: int(n), Cap: int(c), Stride: max(in.n, 1)}}
	if in.n == 0 {
		fr.regs[in.dst].P.(*Slice).Stride = 0
	}
	fr.pc++
}

func (m *Machine) sliceOp(g *Gor, fr *Frame, in *Ins) {
	x := m.get(fr, in.a)
	var length, capacity int
	switch in.k {
	case kSlice:
		s := sl(x)
		length, capacity = s.Len, s.Cap
	case kPtr:
		if x.P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return
		}
		length, capacity = in.m, in.m
	case kString:
		c, _ := strCells(x)
		length, capacity = len(c), len(c)
	}
	lo, hi, mx := m.C.Const(64, 0), m.C.Const(64, uint64(length)), m.C.Const(64, uint64(capacity))
	geti := func(o opnd) *sym.Term {
		v := m.get(fr, o)
		t := m.tm(v, 64)
		if v.T != nil && t.W < 64 {
			t = m.C.ZExt(t, 64)
		}
		return t
	}
	if in.b != noOp {
		lo = geti(in.b)
	}
	if in.c != noOp {
		hi = geti(in.c)
	}
	if in.d != noOp {
		mx = geti(in.d)
	}
	c := m.C
	okc := c.And(c.Not(c.Ult(hi, lo)), c.And(c.Not(c.Ult(mx, hi)), c.Not(c.Ult(c.Const(64, uint64(capacity)), mx))))
	if !okc.IsTrue() && !m.decide(okc) {
		m.rtPanic(g, "slice bounds out of range [%s:%s:%s] with capacity %d", m.showT(lo), m.showT(hi), m.showT(mx), capacity)
		return
	}
	cv := func(t *sym.Term) int { return int(m.concInt(tv(c.Subst(t)), 64, "slice bound")) }
	l, h, mm := cv(lo), cv(hi), cv(mx)
	switch in.k {
	case kString:
		cells, _ := strCells(x)
		if s, ok := x.P.(string); ok {
			fr.regs[in.dst] = Val{P: s[l:h]}
		} else {
			fr.regs[in.dst] = mkStr(cells[l:h])
		}
	case kSlice:
		if x.P == nil {
			fr.regs[in.dst] = Val{}
			break
		}
		s := x.P.(*Slice)
		fr.regs[in.dst] = Val{P: &Slice{Obj: s.Obj, Off: s.Off + l*s.Stride, Len: h - l, Cap: mm - l, Stride: s.Stride, Dims: s.Dims}}
	case kPtr:
		p := m.ptrAdd(x, l*in.n)
		ns := &Slice{Len: h - l, Cap: mm - l, Stride: in.n}
		switch q := p.P.(type) {
		case *Object:
			ns.Obj, ns.Off = q, int(p.N)
		case *SPtr:
			ns.Obj, ns.Off, ns.Dims = q.Obj, q.Off, q.Dims
		}
		fr.regs[in.dst] = Val{P: ns}
	}
	fr.pc++
}

// ---- maps ----

// mapKey is a key for the index, or false if it is symbolic.
func (m *Machine) mapKey(t types.Type, v Val) (string, bool) {
	l := m.LS.of(t)
	switch l.kind {
	case kInt, kBool, kFloat:
		v = m.norm(v)
		if v.T != nil {
			return "", false
		}
		return fmt.Sprintf("%x", v.N), true
	case kString:
		if s, ok := v.P.(string); ok {
			return s, true
		}
		return "", false
	case kPtr, kChan, kUnsafe:
		return fmt.Sprintf("%p+%d", v.P, v.N), true
	case kIface:
		if v.P == nil {
			return "nil", true
		}
		i := v.P.(*Iface)
		k, ok := m.mapKey(i.T, i.V)
		return i.T.String() + ":" + k, ok
	case kStruct, kArray:
		s := ""
		c := v.P.([]Val)
		var rec func(t types.Type, c []Val) bool
		rec = func(t types.Type, c []Val) bool {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				l := m.LS.of(t)
				for i := 0; i < u.NumFields(); i++ {
					if !rec(u.Field(i).Type(), c[l.off[i]:]) {
						return false
					}
				}
				return true
			case *types.Array:
				n := m.LS.of(u.Elem()).n
				for i := 0; i < int(u.Len()); i++ {
					if !rec(u.Elem(), c[i*n:]) {
						return false
					}
				}
				return true
			}
			k, ok := m.mapKey(t, c[0])
			s += k + "|"
			return ok
		}
		ok := rec(t, c)
		return s, ok
	}
	m.unsupported("map key of type %s", t)
	return "", false
}

func (m *Machine) lookup(g *Gor, fr *Frame, in *Ins) {
	x, k := m.get(fr, in.a), m.get(fr, in.b)
	if in.k == kString {
		cells, _ := strCells(x)
		t := m.idx64(k, in.w, in.sgn)
		if !m.checkIndex(g, t, len(cells), "index") {
			return
		}
		i := m.concInt(tv(m.C.Subst(t)), 64, "string index")
		fr.regs[in.dst] = cells[i]
		fr.pc++
		return
	}
	zero := m.LS.zero(in.typ2)
	var v Val
	ok := bval(false)
	mp, _ := x.P.(*MapObj)
	if mp == nil {
		v = zero
	} else {
		if m.Cfg.Race {
			m.raceMap(mp, false)
		}
		v, ok = m.mapGet(g, mp, k, in.typ, in.typ2, zero)
	}
	if in.comma {
		fr.regs[in.dst] = Val{P: []Val{v, ok}}
	} else {
		fr.regs[in.dst] = v
	}
	fr.pc++
}

func (m *Machine) mapGet(g *Gor, mp *MapObj, k Val, kt, vt types.Type, zero Val) (Val, Val) {
	key, conc := m.mapKey(kt, k)
	if conc && !mp.Sym {
		if i, ok := mp.Idx[key]; ok {
			return mp.E[i].V, bval(true)
		}
		return zero, bval(false)
	}
	lay := m.LS.of(vt)
	mergeable := lay.kind == kInt || lay.kind == kBool
	v, ok := zero, m.C.False
	if mergeable {
		m.iteW = cellW(lay)
		for _, e := range mp.E {
			q, _ := m.equal(g, kt, k, e.K)
			c := m.tb(q)
			if c.IsFalse() {
				continue
			}
			if e.Del {
				v, ok = m.ite(c, zero, v), m.C.And(m.C.Not(c), ok)
			} else {
				v, ok = m.ite(c, e.V, v), m.C.Or(c, ok)
			}
		}
		return v, tv(ok)
	}
	for i := len(mp.E) - 1; i >= 0; i-- {
		e := mp.E[i]
		q, _ := m.equal(g, kt, k, e.K)
		if q.T == nil && q.N == 0 {
			continue
		}
		if m.decide(m.tb(q)) {
			if e.Del {
				return zero, bval(false)
			}
			return e.V, bval(true)
		}
	}
	return zero, bval(false)
}

func (m *Machine) mapUpdate(g *Gor, x, k, v Val, fr *Frame) {
	mp, _ := x.P.(*MapObj)
	if mp == nil {
		m.goPanic(g, Val{P: &Iface{T: m.L.rtErr, V: Val{P: []Val{{P: "assignment to entry in nil map"}}}}}, "assignment to entry in nil map")
		return
	}
	if m.Cfg.Race {
		m.raceMap(mp, true)
	}
	m.touchMap(mp)
	key, conc := m.mapKey(mp.KT, k)
	if conc && !mp.Sym {
		if i, ok := mp.Idx[key]; ok {
			mp.E[i].V = v
		} else {
			mp.Idx[key] = len(mp.E)
			mp.E = append(mp.E, mapEnt{K: k, V: v})
		}
	} else {
		mp.Sym = true
		mp.E = append(mp.E, mapEnt{K: k, V: v})
	}
	fr.pc++
}

func (m *Machine) mapDelete(g *Gor, mp *MapObj, k Val) {
	if mp == nil {
		return
	}
	if m.Cfg.Race {
		m.raceMap(mp, true)
	}
	m.touchMap(mp)
	key, conc := m.mapKey(mp.KT, k)
	if conc && !mp.Sym {
		if i, ok := mp.Idx[key]; ok {
			mp.E = append(mp.E[:i:i], mp.E[i+1:]...)
			delete(mp.Idx, key)
			for k2, j := range mp.Idx {
				if j > i {
					mp.Idx[k2] = j - 1
				}
			}
		}
		return
	}
	mp.Sym = true
	mp.E = append(mp.E, mapEnt{K: k, Del: true})
}

// resolve makes the entries of a map distinct.
func (m *Machine) mapEntries(g *Gor, mp *MapObj) []mapEnt {
	if mp == nil {
		return nil
	}
	if !mp.Sym {
		return mp.E
	}
	var r []mapEnt
	for _, e := range mp.E {
		dup := -1
		for i := range r {
			q, _ := m.equal(g, mp.KT, e.K, r[i].K)
			if q.T == nil && q.N == 0 {
				continue
			}
			if m.decide(m.tb(q)) {
				dup = i
				break
			}
		}
		switch {
		case dup >= 0 && e.Del:
			r = append(r[:dup:dup], r[dup+1:]...)
		case dup >= 0:
			r[dup].V = e.V
		case !e.Del:
			r = append(r, e)
		}
	}
	return r
}

func (m *Machine) rangeOp(fr *Frame, in *Ins) {
	x := m.get(fr, in.a)
	it := &mapIter{}
	if in.k == kString {
		s, ok := x.P.(string)
		if !ok {
			m.unsupported("range over a symbolic string")
		}
		it.Str, it.S = s, true
	} else if mp, _ := x.P.(*MapObj); mp != nil {
		it.M = mp
		it.Keys = append([]mapEnt(nil), m.mapEntries(m.cur, mp)...)
		// the order is not specified: forwards or backwards
		if len(it.Keys) > 1 && m.choose(2) == 1 {
			for i, j := 0, len(it.Keys)-1; i < j; i, j = i+1, j-1 {
				it.Keys[i], it.Keys[j] = it.Keys[j], it.Keys[i]
			}
		}
	}
	fr.regs[in.dst] = Val{P: it}
	fr.pc++
}

func (m *Machine) next(fr *Frame, in *Ins) {
	it := m.get(fr, in.a).P.(*mapIter)
	if it.S {
		if it.Pos >= len(it.Str) {
			fr.regs[in.dst] = Val{P: []Val{bval(false), {}, {}}}
		} else {
			for _, r := range it.Str[it.Pos:] {
				fr.regs[in.dst] = Val{P: []Val{bval(true), {N: uint64(it.Pos)}, {N: uint64(uint32(r))}}}
				it.Pos += len(string(r))
				break
			}
		}
		fr.pc++
		return
	}
	if it.Pos >= len(it.Keys) {
		fr.regs[in.dst] = Val{P: []Val{bval(false), {}, {}}}
	} else {
		e := it.Keys[it.Pos]
		it.Pos++
		fr.regs[in.dst] = Val{P: []Val{bval(true), e.K, e.V}}
	}
	fr.pc++
}

func (m *Machine) typeAssert(g *Gor, fr *Frame, in *Ins) {
	x := m.get(fr, in.a)
	var ok bool
	var res Val
	if x.P != nil {
		i := x.P.(*Iface)
		if it, isI := in.typ2.Underlying().(*types.Interface); isI {
			k := akey{i.T, in.typ2}
			r, hit := m.acache[k]
			if !hit {
				r = types.Implements(i.T, it)
				m.acache[k] = r
			}
			ok, res = r, x
		} else {
			ok, res = m.identical(i.T, in.typ2), i.V
		}
	}
	if in.comma {
		if !ok {
			res = m.LS.zero(in.typ2)
		}
		fr.regs[in.dst] = Val{P: []Val{res, bval(ok)}}
		fr.pc++
		return
	}
	if !ok {
		m.rtPanic(g, "interface conversion to %s", in.typ2)
		return
	}
	fr.regs[in.dst] = res
	fr.pc++
}

func (m *Machine) show(v Val) string {
	switch p := v.P.(type) {
	case *Iface:
		if m.LS.of(p.T).kind == kString {
			return m.show(p.V)
		}
		if c, ok := p.V.P.([]Val); ok && len(c) == 1 {
			return m.show(c[0])
		}
		return p.T.String()
	case string:
		return p
	case nil:
		if v.T != nil {
			return "symbolic"
		}
		return fmt.Sprint(v.N)
	}
	return fmt.Sprintf("%T", v.P)
}
