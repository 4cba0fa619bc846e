// Package interp executes Go SSA symbolically.
package interp

import (
	"fmt"
	"go/types"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

// Val is a value. Integers, booleans and floats are in N (zero-extended), or
// in T if symbolic. P holds everything else:
//
//	pointer: *Object with the offset in N, or *SPtr; nil for a nil pointer
//	slice: *Slice or nil
//	string: string or *SymStr
//	struct, array, tuple: []Val (one element per cell, or per component of a tuple)
//	map: *MapObj, channel: *ChanObj, function: *Closure, interface: *Iface
type Val struct {
	N uint64
	T *sym.Term
	P any
}

// Object is a piece of memory made of cells.
type Object struct {
	ID     int
	C      []Val
	Epoch  int
	Name   string
	Typ    types.Type
	Race   []raceCell
	Input  bool
	Ver    int
	tabs   map[tabKey]*sym.Table
	tabVer int
	chain  *chain
}

// chain lists the stores at symbolic indices that made an object what it is, the last one first.
type chain struct {
	ver  int     // of the object after the store
	base *Object // what it was before the first of them
	prev *chain
	n    int
	off  int
	dim  Dim
	v    Val
}

type Dim struct {
	Idx    *sym.Term // 64 bits, 0 <= Idx < Count
	Stride int
	Count  int
}

// SPtr is a pointer at a symbolic place in an object.
type SPtr struct {
	Obj  *Object
	Off  int
	Dims []Dim
}

type Slice struct {
	Obj      *Object
	Off      int
	Len, Cap int
	Stride   int // cells per element
	Dims     []Dim
}

// WPtr is a pointer at bytes of an object that are seen as wider integers.
type WPtr struct {
	O *Object
	W uint8
}

type SymStr struct{ C []Val }

type Iface struct {
	T types.Type
	V Val
}

type Closure struct {
	Fn    *ssa.Function
	Free  []Val
	Intr  *Intrinsic
	Recv  *Val
	Bound string
}

type MapObj struct {
	ID    int
	Epoch int
	E     []mapEnt
	Idx   map[string]int // concrete keys -> index of the last entry; nil if some key is symbolic
	Sym   bool
	KT    types.Type
	VT    types.Type
	Race  raceCell
}

type mapEnt struct {
	K, V Val
	Del  bool
}

type ChanObj struct {
	ID     int
	Epoch  int
	Cap    int
	Buf    []chanItem
	Closed bool
	Recvq  []*waiter
	Sendq  []*waiter
	Elem   types.Type
	VC     vclock
	slots  []vclock // per-receive clocks for buffered channels
	nsend  int
}

type chanItem struct {
	V  Val
	VC vclock
}

type waiter struct {
	G    *Gor
	V    Val
	Case int
	Done *bool
	Ok   bool
	Got  bool
	VC0  vclock // of the waiting goroutine
	VC   vclock // of the one that served it
}

// mapIter iterates over a map or a string.
type mapIter struct {
	M    *MapObj
	Keys []mapEnt
	Pos  int
	Str  string
	S    bool
}

func (p *SPtr) String() string { return fmt.Sprintf("sptr(%s+%d)", p.Obj.Name, p.Off) }

// ---- types ----

type layout struct {
	n       int   // cells
	off     []int // of struct fields
	elem    int   // cells of an array element
	kind    kind
	w       uint8
	sgn     bool
	aggr    bool
	isFloat bool
}

type kind uint8

const (
	kInt kind = iota
	kBool
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kUnsafe
	kComplex
)

type layouts struct {
	m map[types.Type]*layout
}

func (ls *layouts) of(t types.Type) *layout {
	if l := ls.m[t]; l != nil {
		return l
	}
	l := &layout{n: 1}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			l.kind = kBool
		case types.Int, types.Int64, types.UntypedInt:
			l.kind, l.w, l.sgn = kInt, 64, true
		case types.Int32, types.UntypedRune:
			l.kind, l.w, l.sgn = kInt, 32, true
		case types.Int16:
			l.kind, l.w, l.sgn = kInt, 16, true
		case types.Int8:
			l.kind, l.w, l.sgn = kInt, 8, true
		case types.Uint, types.Uint64, types.Uintptr:
			l.kind, l.w = kInt, 64
		case types.Uint32:
			l.kind, l.w = kInt, 32
		case types.Uint16:
			l.kind, l.w = kInt, 16
		case types.Uint8:
			l.kind, l.w = kInt, 8
		case types.Float64, types.UntypedFloat:
			l.kind, l.w = kFloat, 64
		case types.Float32:
			l.kind, l.w = kFloat, 32
		case types.String, types.UntypedString:
			l.kind = kString
		case types.UnsafePointer:
			l.kind = kUnsafe
		case types.UntypedNil:
			l.kind = kPtr
		default:
			l.kind = kComplex
		}
	case *types.Pointer:
		l.kind = kPtr
	case *types.Slice:
		l.kind = kSlice
	case *types.Map:
		l.kind = kMap
	case *types.Chan:
		l.kind = kChan
	case *types.Signature:
		l.kind = kFunc
	case *types.Interface:
		l.kind = kIface
	case *types.Struct:
		l.kind, l.aggr, l.n = kStruct, true, 0
		for i := 0; i < u.NumFields(); i++ {
			l.off = append(l.off, l.n)
			l.n += ls.of(u.Field(i).Type()).n
		}
	case *types.Array:
		l.kind, l.aggr = kArray, true
		l.elem = ls.of(u.Elem()).n
		l.n = l.elem * int(u.Len())
	case *types.Tuple:
		l.kind, l.n = kTuple, u.Len()
	default:
		panic(fmt.Sprintf("layout of %s", t))
	}
	ls.m[t] = l
	return l
}

// zeroCells fills cells with the zero value of t.
func (ls *layouts) zero(t types.Type) Val {
	l := ls.of(t)
	if l.kind == kTuple {
		u := t.Underlying().(*types.Tuple)
		r := make([]Val, u.Len())
		for i := range r {
			r[i] = ls.zero(u.At(i).Type())
		}
		return Val{P: r}
	}
	if l.aggr {
		c := make([]Val, l.n)
		ls.fillZero(t, c)
		return Val{P: c}
	}
	if l.kind == kString {
		return Val{P: ""}
	}
	return Val{}
}

func (ls *layouts) needsFill(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Array:
		return ls.needsFill(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ls.needsFill(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (ls *layouts) fillZero(t types.Type, c []Val) {
	if !ls.needsFill(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		c[0] = Val{P: ""}
	case *types.Array:
		n := ls.of(u.Elem()).n
		for i := 0; i < int(u.Len()); i++ {
			ls.fillZero(u.Elem(), c[i*n:(i+1)*n])
		}
	case *types.Struct:
		l := ls.of(t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			ls.fillZero(ft, c[l.off[i]:l.off[i]+ls.of(ft).n])
		}
	}
}
