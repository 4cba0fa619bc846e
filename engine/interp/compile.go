package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oBin
	oUn
	oDeref
	oRecv
	oCopy // ChangeType
	oConvert
	oMakeIface
	oChangeIface
	oMakeClosure
	oMakeMap
	oMakeChan
	oMakeSlice
	oSlice
	oFieldAddr
	oField
	oIndexAddr
	oIndex
	oLookup
	oSelect
	oRange
	oNext
	oTypeAssert
	oExtract
	oSliceToArr
	oJump
	oIf
	oReturn
	oRunDefers
	oPanic
	oGo
	oDefer
	oSend
	oStore
	oMapUpdate
	oCall
	oBad
)

// opnd: >=0 register, <0 constant ^i
type opnd int32

type Ins struct {
	op    opcode
	tok   token.Token
	k     kind
	w     uint8
	sgn   bool
	comma bool
	dst   int32
	a     opnd
	b     opnd
	c     opnd
	d     opnd
	n     int
	m     int
	args  []opnd
	lay   *layout
	typ   types.Type
	typ2  types.Type
	call  *callInfo
	sel   []selState
	src   ssa.Instruction
}

type selState struct {
	send bool
	ch   opnd
	val  opnd
}

type callInfo struct {
	fn      *ssa.Function
	intr    *Intrinsic
	builtin string
	method  *types.Func
	val     opnd
	args    []opnd
	sig     *types.Signature
	retT    types.Type
	argT    []types.Type
}

type phi struct {
	dst   int32
	w     uint8
	edges []opnd
}

type block struct {
	phis  []phi
	ins   []Ins
	succs []int32
	// preds[i] position of this block in succ's preds for Jump/If
	predAt []int32
}

type Code struct {
	ipdom   []int32
	fn      *ssa.Function
	name    string
	nreg    int
	consts  []Val
	blocks  []block
	params  int
	free    int
	recover int
	results *types.Tuple
	pkg     string
}

type compiler struct {
	m    *Machine
	fn   *ssa.Function
	code *Code
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]opnd
}

func (m *Machine) code(fn *ssa.Function) *Code {
	if c := m.codes[fn]; c != nil {
		return c
	}
	c := m.compile(fn)
	m.codes[fn] = c
	return c
}

func (m *Machine) compile(fn *ssa.Function) *Code {
	m.L.build(fn)
	code := &Code{fn: fn, name: fn.String(), recover: -1, results: fn.Signature.Results()}
	if fn.Pkg != nil {
		code.pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		code.pkg = fn.Origin().Pkg.Pkg.Path()
	}
	if fn.Blocks == nil {
		return code
	}
	cp := &compiler{m: m, fn: fn, code: code, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]opnd{}}
	n := int32(0)
	for _, p := range fn.Params {
		cp.reg[p] = n
		n++
	}
	code.params = len(fn.Params)
	for _, p := range fn.FreeVars {
		cp.reg[p] = n
		n++
	}
	code.free = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cp.reg[v] = n
				n++
			}
		}
	}
	code.nreg = int(n)
	code.blocks = make([]block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &code.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, int32(s.Index))
		}
		for si, s := range b.Succs {
			// the same block can occur twice among the predecessors
			skip := 0
			for sj := 0; sj < si; sj++ {
				if b.Succs[sj] == s {
					skip++
				}
			}
			at := int32(-1)
			for pi, p := range s.Preds {
				if p == b {
					if skip == 0 {
						at = int32(pi)
						break
					}
					skip--
				}
			}
			cb.predAt = append(cb.predAt, at)
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: cp.reg[p], w: cellW(cp.m.LS.of(p.Type()))}
				for _, e := range p.Edges {
					ph.edges = append(ph.edges, cp.op(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, cp.ins(in))
		}
	}
	if fn.Recover != nil {
		code.recover = fn.Recover.Index
	}
	return code
}

func (cp *compiler) addConst(v Val) opnd {
	cp.code.consts = append(cp.code.consts, v)
	return ^opnd(len(cp.code.consts) - 1)
}

func (cp *compiler) op(v ssa.Value) opnd {
	if v == nil {
		return cp.addConst(Val{})
	}
	if r, ok := cp.reg[v]; ok {
		return opnd(r)
	}
	if o, ok := cp.cidx[v]; ok {
		return o
	}
	var o opnd
	switch v := v.(type) {
	case *ssa.Const:
		o = cp.addConst(cp.m.constVal(v))
	case *ssa.Global:
		o = cp.addConst(Val{P: cp.m.global(v)})
	case *ssa.Function:
		o = cp.addConst(Val{P: cp.m.funcVal(v)})
	case *ssa.Builtin:
		o = cp.addConst(Val{P: v.Name()})
	default:
		panic(fmt.Sprintf("operand %T", v))
	}
	cp.cidx[v] = o
	return o
}

func (m *Machine) constVal(v *ssa.Const) Val {
	if v.Value == nil {
		return m.LS.zero(v.Type())
	}
	l := m.LS.of(v.Type())
	switch l.kind {
	case kBool:
		if constant.BoolVal(v.Value) {
			return Val{N: 1}
		}
		return Val{}
	case kInt:
		if l.sgn {
			return Val{N: uint64(v.Int64()) & maskw(l.w)}
		}
		return Val{N: v.Uint64() & maskw(l.w)}
	case kFloat:
		f := v.Float64()
		if l.w == 32 {
			return Val{N: uint64(math.Float32bits(float32(f)))}
		}
		return Val{N: math.Float64bits(f)}
	case kString:
		if v.Value.Kind() == constant.String {
			return Val{P: constant.StringVal(v.Value)}
		}
		return Val{P: string(rune(v.Int64()))}
	}
	return Val{}
}

func maskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (m *Machine) funcVal(fn *ssa.Function) *Closure {
	if c := m.fvals[fn]; c != nil {
		return c
	}
	c := &Closure{Fn: fn}
	c.Intr = m.intrinsicFor(fn)
	m.fvals[fn] = c
	return c
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (cp *compiler) callInfo(c *ssa.CallCommon, v ssa.Value) *callInfo {
	ci := &callInfo{sig: c.Signature()}
	for _, a := range c.Args {
		ci.args = append(ci.args, cp.op(a))
		ci.argT = append(ci.argT, a.Type())
	}
	if v != nil {
		ci.retT = v.Type()
	}
	if c.IsInvoke() {
		ci.method = c.Method
		ci.val = cp.op(c.Value)
		return ci
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = f.Name()
	case *ssa.Function:
		ci.fn = f
		ci.intr = cp.m.intrinsicFor(f)
		if r := cp.m.redirect(f); r != nil {
			ci.fn, ci.intr = r, cp.m.intrinsicFor(r)
		}
	default:
		ci.val = cp.op(c.Value)
	}
	return ci
}

func (cp *compiler) ins(in ssa.Instruction) Ins {
	ls := cp.m.LS
	x := Ins{src: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		x.dst = cp.reg[v]
		x.typ = v.Type()
	}
	set := func(t types.Type) {
		l := ls.of(t)
		x.lay, x.k, x.w, x.sgn = l, l.kind, l.w, l.sgn
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		x.op = oAlloc
		x.typ2 = deref(in.Type())
		set(x.typ2)
	case *ssa.BinOp:
		x.op, x.tok = oBin, in.Op
		x.a, x.b = cp.op(in.X), cp.op(in.Y)
		set(in.X.Type())
		x.typ2 = in.X.Type()
		if in.Op == token.SHL || in.Op == token.SHR {
			l := ls.of(in.Y.Type())
			x.n = int(l.w)
			x.comma = l.sgn
		}
	case *ssa.UnOp:
		x.a = cp.op(in.X)
		switch in.Op {
		case token.MUL:
			x.op = oDeref
			set(in.Type())
		case token.ARROW:
			x.op = oRecv
			x.comma = in.CommaOk
			x.typ2 = in.X.Type().Underlying().(*types.Chan).Elem()
		default:
			x.op, x.tok = oUn, in.Op
			set(in.Type())
		}
	case *ssa.ChangeType:
		x.op = oCopy
		x.a = cp.op(in.X)
	case *ssa.Convert:
		x.op = oConvert
		x.a = cp.op(in.X)
		x.typ2 = in.X.Type()
		set(in.Type())
	case *ssa.MultiConvert:
		x.op = oConvert
		x.a = cp.op(in.X)
		x.typ2 = in.X.Type()
		set(in.Type())
	case *ssa.MakeInterface:
		x.op = oMakeIface
		x.a = cp.op(in.X)
		x.typ2 = in.X.Type()
	case *ssa.ChangeInterface:
		x.op = oCopy
		x.a = cp.op(in.X)
	case *ssa.MakeClosure:
		x.op = oMakeClosure
		x.a = cp.op(in.Fn)
		for _, b := range in.Bindings {
			x.args = append(x.args, cp.op(b))
		}
	case *ssa.MakeMap:
		x.op = oMakeMap
		mt := in.Type().Underlying().(*types.Map)
		x.typ, x.typ2 = mt.Key(), mt.Elem()
	case *ssa.MakeChan:
		x.op = oMakeChan
		x.a = cp.op(in.Size)
		x.typ2 = in.Type().Underlying().(*types.Chan).Elem()
	case *ssa.MakeSlice:
		x.op = oMakeSlice
		x.a, x.b = cp.op(in.Len), cp.op(in.Cap)
		x.typ2 = in.Type().Underlying().(*types.Slice).Elem()
		x.n = ls.of(x.typ2).n
		x.w = ls.of(in.Len.Type()).w
		x.sgn = ls.of(in.Len.Type()).sgn
	case *ssa.Slice:
		x.op = oSlice
		x.a = cp.op(in.X)
		x.b, x.c, x.d = cp.opt(in.Low), cp.opt(in.High), cp.opt(in.Max)
		x.typ2 = in.X.Type()
		switch u := x.typ2.Underlying().(type) {
		case *types.Slice:
			x.k, x.n = kSlice, ls.of(u.Elem()).n
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			x.k, x.n, x.m = kPtr, ls.of(arr.Elem()).n, int(arr.Len())
		default:
			x.k = kString
		}
	case *ssa.FieldAddr:
		x.op = oFieldAddr
		x.a = cp.op(in.X)
		x.n = ls.of(deref(in.X.Type())).off[in.Field]
	case *ssa.Field:
		x.op = oField
		x.a = cp.op(in.X)
		l := ls.of(in.X.Type())
		x.n = l.off[in.Field]
		set(in.Type())
		x.m = x.lay.n
	case *ssa.IndexAddr:
		x.op = oIndexAddr
		x.a, x.b = cp.op(in.X), cp.op(in.Index)
		il := ls.of(in.Index.Type())
		x.w, x.sgn = il.w, il.sgn
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.k, x.n = kSlice, ls.of(u.Elem()).n
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			x.k, x.n, x.m = kPtr, ls.of(arr.Elem()).n, int(arr.Len())
		}
	case *ssa.Index:
		x.op = oIndex
		x.a, x.b = cp.op(in.X), cp.op(in.Index)
		il := ls.of(in.Index.Type())
		x.w, x.sgn = il.w, il.sgn
		x.typ2 = in.X.Type()
		x.lay = ls.of(in.Type())
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			x.k, x.n, x.m = kArray, ls.of(a.Elem()).n, int(a.Len())
		} else {
			x.k = kString
		}
	case *ssa.Lookup:
		x.op = oLookup
		x.a, x.b = cp.op(in.X), cp.op(in.Index)
		x.comma = in.CommaOk
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			x.k = kMap
			x.typ, x.typ2 = mt.Key(), mt.Elem()
		} else {
			x.k = kString
			il := ls.of(in.Index.Type())
			x.w, x.sgn = il.w, il.sgn
		}
	case *ssa.Select:
		x.op = oSelect
		x.comma = in.Blocking
		for _, s := range in.States {
			st := selState{send: s.Dir == types.SendOnly, ch: cp.op(s.Chan)}
			if st.send {
				st.val = cp.op(s.Send)
			}
			x.sel = append(x.sel, st)
		}
	case *ssa.Range:
		x.op = oRange
		x.a = cp.op(in.X)
		x.k = ls.of(in.X.Type()).kind
	case *ssa.Next:
		x.op = oNext
		x.a = cp.op(in.Iter)
		x.comma = in.IsString
	case *ssa.TypeAssert:
		x.op = oTypeAssert
		x.a = cp.op(in.X)
		x.comma = in.CommaOk
		x.typ2 = in.AssertedType
	case *ssa.Extract:
		x.op = oExtract
		x.a = cp.op(in.Tuple)
		x.n = in.Index
	case *ssa.SliceToArrayPointer:
		x.op = oSliceToArr
		x.a = cp.op(in.X)
		x.n = int(deref(in.Type()).Underlying().(*types.Array).Len())
	case *ssa.Jump:
		x.op = oJump
	case *ssa.If:
		x.op = oIf
		x.a = cp.op(in.Cond)
	case *ssa.Return:
		x.op = oReturn
		for _, r := range in.Results {
			x.args = append(x.args, cp.op(r))
		}
	case *ssa.RunDefers:
		x.op = oRunDefers
	case *ssa.Panic:
		x.op = oPanic
		x.a = cp.op(in.X)
	case *ssa.Go:
		x.op = oGo
		x.call = cp.callInfo(&in.Call, nil)
	case *ssa.Defer:
		x.op = oDefer
		x.call = cp.callInfo(&in.Call, nil)
	case *ssa.Send:
		x.op = oSend
		x.a, x.b = cp.op(in.Chan), cp.op(in.X)
	case *ssa.Store:
		x.op = oStore
		x.a, x.b = cp.op(in.Addr), cp.op(in.Val)
		set(in.Val.Type())
	case *ssa.MapUpdate:
		x.op = oMapUpdate
		x.a, x.b, x.c = cp.op(in.Map), cp.op(in.Key), cp.op(in.Value)
	case *ssa.Call:
		x.op = oCall
		x.call = cp.callInfo(&in.Call, in)
	default:
		x.op = oBad
	}
	return x
}

const noOp = opnd(1 << 30)

func (cp *compiler) opt(v ssa.Value) opnd {
	if v == nil {
		return noOp
	}
	return cp.op(v)
}
