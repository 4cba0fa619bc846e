package sym

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin  // byte: constant + sum of matrix images of atoms
	OpMono // byte: product in GF(2^8) of two or more atoms
	OpInv  // byte: inverse in GF(2^8), 0 for 0
	OpTab  // byte function of one byte, by table
	OpSel  // table of constants indexed by a term
	OpCat  // bytes, least significant first
	OpExt  // byte val of a wide term
	OpZExt
	OpSExt
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpBAnd
	OpBOr
	OpBNot
)

var opNames = [...]string{"const", "var", "lin", "mono", "inv", "tab", "sel", "cat", "ext", "zext", "sext", "add", "sub", "mul",
	"udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "ite", "eq", "ult", "slt", "band", "bor", "bnot"}

// Table is a constant table, interned.
type Table struct {
	ID  int
	W   uint8
	Val []uint64
}

// Term is a hash-consed term; W is 0 for booleans, otherwise 8, 16, 32 or 64.
type Term struct {
	Op     Op
	W      uint8
	ID     int32
	A      []*Term
	Val    uint64
	Mats   []Mat // OpLin: one per element of A; Val is the constant
	Tab    *Table
	Name   string // OpVar
	Ones   uint64 // bits that can be one
	Lo, Hi uint64
	Bloom  uint64 // of the variables
	NVars  int32  // cheap upper bound, saturating
	gen    bool   // contains an unclassified byte operation at the top (see canon)
	canon  *Term
	Info   any // OpVar
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.W == 0 && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.W == 0 && t.Val == 0 }

// Ctx owns terms. It is not safe for concurrent use.
type Ctx struct {
	eqFrom   map[*Term][]*Term
	tab      map[string]*Term
	n        int32
	consts   [5]map[uint64]*Term
	tables   map[string]*Table
	nt       int
	True     *Term
	False    *Term
	keybuf   []byte
	Raw      bool // no canonical forms: products and table look-ups stay as they are
	shapes   map[string]*shape
	Shapes   []*shape
	subMemo  map[*Term]*Term
	sub      map[*Term]uint64
	subBloom uint64
	Vars     []*Term
	Stat     struct{ Terms, Classified, Evaluated int }
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, tables: map[string]*Table{}, shapes: map[string]*shape{}}
	for i := range c.consts {
		c.consts[i] = map[uint64]*Term{}
	}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func wi(w uint8) int {
	switch w {
	case 0:
		return 0
	case 8:
		return 1
	case 16:
		return 2
	case 32:
		return 3
	case 64:
		return 4
	}
	panic(fmt.Sprintf("width %d", w))
}

func Mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= Mask(w)
	m := c.consts[wi(w)]
	if t := m[v]; t != nil {
		return t
	}
	t := &Term{Op: OpConst, W: w, ID: c.n, Val: v, Ones: v, Lo: v, Hi: v}
	c.n++
	m[v] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes a new variable. lo..hi is its range, which the solver is told.
func (c *Ctx) Var(w uint8, name string, lo, hi uint64) *Term {
	t := &Term{Op: OpVar, W: w, ID: c.n, Name: name, Lo: lo, Hi: hi, Ones: onesUpTo(hi), NVars: 1}
	t.Bloom = 1 << (uint(len(c.Vars)) % 64)
	c.n++
	c.Vars = append(c.Vars, t)
	return t
}

func onesUpTo(hi uint64) uint64 {
	if hi == 0 {
		return 0
	}
	return 1<<uint(bits.Len64(hi)) - 1
}

func (c *Ctx) NewTable(w uint8, vals []uint64) *Table {
	key := make([]byte, 1+8*len(vals))
	key[0] = w
	for i, v := range vals {
		binary.LittleEndian.PutUint64(key[1+8*i:], v)
	}
	if t := c.tables[string(key)]; t != nil {
		return t
	}
	t := &Table{ID: c.nt, W: w, Val: append([]uint64(nil), vals...)}
	c.nt++
	c.tables[string(key)] = t
	return t
}

func (c *Ctx) mk(op Op, w uint8, val uint64, tab *Table, mats []Mat, args ...*Term) *Term {
	k := c.keybuf[:0]
	k = append(k, byte(op), w)
	k = binary.LittleEndian.AppendUint64(k, val)
	if tab != nil {
		k = binary.LittleEndian.AppendUint32(k, uint32(tab.ID))
	}
	for i, a := range args {
		k = binary.LittleEndian.AppendUint32(k, uint32(a.ID))
		if mats != nil {
			k = binary.LittleEndian.AppendUint64(k, uint64(mats[i]))
		}
	}
	c.keybuf = k
	if t := c.tab[string(k)]; t != nil {
		return t
	}
	t := &Term{Op: op, W: w, ID: c.n, Val: val, Tab: tab, A: append([]*Term(nil), args...)}
	if mats != nil {
		t.Mats = append([]Mat(nil), mats...)
	}
	c.n++
	c.Stat.Terms++
	nv := int32(0)
	for _, a := range args {
		t.Bloom |= a.Bloom
		nv += a.NVars
	}
	if nv > 1<<20 {
		nv = 1 << 20
	}
	t.NVars = nv
	c.setRange(t)
	c.tab[string(k)] = t
	return t
}

func (c *Ctx) setRange(t *Term) {
	m := Mask(t.W)
	t.Lo, t.Hi, t.Ones = 0, m, m
	a := func(i int) *Term { return t.A[i] }
	switch t.Op {
	case OpLin:
		ones := byte(t.Val)
		for i, x := range t.A {
			ones |= t.Mats[i].Image(byte(x.Ones))
			if x.gen {
				t.gen = true
			}
		}
		t.Ones = uint64(ones)
		t.Hi = uint64(ones)
	case OpSel, OpTab:
		lo, hi, ones := ^uint64(0), uint64(0), uint64(0)
		for i, v := range t.Tab.Val {
			if uint64(i) < t.A[0].Lo || uint64(i) > t.A[0].Hi || uint64(i)&^t.A[0].Ones != 0 {
				continue
			}
			ones |= v
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		if lo <= hi {
			t.Lo, t.Hi, t.Ones = lo, hi, ones
		}
	case OpCat:
		t.Lo, t.Hi, t.Ones = 0, 0, 0
		for i, x := range t.A {
			t.Lo |= x.Lo << (8 * uint(i))
			t.Hi |= x.Hi << (8 * uint(i))
			t.Ones |= x.Ones << (8 * uint(i))
		}
	case OpExt:
		t.Ones = a(0).Ones >> (8 * t.Val) & 0xff
		t.Hi = t.Ones
		if t.Val == 0 && a(0).Hi <= 0xff {
			t.Lo, t.Hi = a(0).Lo, a(0).Hi
		}
	case OpZExt:
		t.Lo, t.Hi, t.Ones = a(0).Lo, a(0).Hi, a(0).Ones
	case OpAdd:
		s, cy := bits.Add64(a(0).Hi, a(1).Hi, 0)
		if cy == 0 && s <= m {
			t.Lo, t.Hi = a(0).Lo+a(1).Lo, s
			t.Ones = onesUpTo(s)
		}
	case OpSub:
		if a(0).Lo >= a(1).Hi {
			t.Lo, t.Hi = a(0).Lo-a(1).Hi, a(0).Hi-a(1).Lo
			t.Ones = onesUpTo(t.Hi)
		}
	case OpMul:
		h, l := bits.Mul64(a(0).Hi, a(1).Hi)
		if h == 0 && l <= m {
			t.Lo, t.Hi = a(0).Lo*a(1).Lo, l
			t.Ones = onesUpTo(l)
		}
	case OpUDiv:
		if a(1).Lo > 0 {
			t.Lo, t.Hi = a(0).Lo/a(1).Hi, a(0).Hi/a(1).Lo
			t.Ones = onesUpTo(t.Hi)
		}
	case OpURem:
		if a(1).Lo > 0 {
			t.Hi = a(1).Hi - 1
			if a(0).Hi < t.Hi {
				t.Hi = a(0).Hi
			}
			t.Ones = onesUpTo(t.Hi)
		}
	case OpAnd:
		t.Ones = a(0).Ones & a(1).Ones
		t.Hi = min(min(a(0).Hi, a(1).Hi), t.Ones)
	case OpOr, OpXor:
		t.Ones = a(0).Ones | a(1).Ones
		t.Hi = onesUpTo(t.Ones)
		if t.Op == OpOr {
			t.Lo = max(a(0).Lo, a(1).Lo)
		}
	case OpLShr:
		if a(1).IsConst() {
			if a(1).Val < 64 {
				t.Ones = a(0).Ones >> a(1).Val
				t.Lo, t.Hi = a(0).Lo>>a(1).Val, a(0).Hi>>a(1).Val
			}
		} else {
			t.Hi = a(0).Hi
			t.Ones = onesUpTo(t.Hi)
		}
	case OpShl:
		if a(1).IsConst() && a(1).Val < 64 {
			t.Ones = a(0).Ones << a(1).Val & m
			t.Hi = onesUpTo(t.Ones)
			if bits.Len64(a(0).Hi)+int(a(1).Val) <= int(t.W) {
				t.Lo, t.Hi = a(0).Lo<<a(1).Val, a(0).Hi<<a(1).Val
			}
		}
	case OpIte:
		if t.W != 0 {
			t.Lo, t.Hi, t.Ones = min(a(1).Lo, a(2).Lo), max(a(1).Hi, a(2).Hi), a(1).Ones|a(2).Ones
		}
	}
	if t.W == 8 {
		switch t.Op {
		case OpExt, OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpAnd, OpOr, OpShl, OpLShr, OpAShr, OpIte, OpSel:
			t.gen = true
		}
	}
	if t.Hi > m {
		t.Hi = m
	}
	t.Ones &= m
}

// ---- bytes ----

type linAcc struct {
	c  byte
	at []*Term
	m  []Mat
}

func (l *linAcc) add(t *Term, m Mat) {
	if m == 0 {
		return
	}
	switch t.Op {
	case OpConst:
		l.c ^= m.Apply(byte(t.Val))
	case OpLin:
		l.c ^= m.Apply(byte(t.Val))
		for i, x := range t.A {
			if mm := m.Mul(t.Mats[i]); mm != 0 {
				l.at = append(l.at, x)
				l.m = append(l.m, mm)
			}
		}
	default:
		l.at = append(l.at, t)
		l.m = append(l.m, m)
	}
}

type linSort linAcc

func (s *linSort) Len() int           { return len(s.at) }
func (s *linSort) Less(i, j int) bool { return s.at[i].ID < s.at[j].ID }
func (s *linSort) Swap(i, j int) {
	s.at[i], s.at[j] = s.at[j], s.at[i]
	s.m[i], s.m[j] = s.m[j], s.m[i]
}

func (c *Ctx) fin(l *linAcc) *Term {
	sorted := true
	for i := 1; i < len(l.at); i++ {
		if l.at[i-1].ID >= l.at[i].ID {
			sorted = false
			break
		}
	}
	if !sorted {
		sort.Stable((*linSort)(l))
		n := 0
		for i := 0; i < len(l.at); {
			j := i + 1
			m := l.m[i]
			for j < len(l.at) && l.at[j] == l.at[i] {
				m ^= l.m[j]
				j++
			}
			if m != 0 {
				l.at[n], l.m[n] = l.at[i], m
				n++
			}
			i = j
		}
		l.at, l.m = l.at[:n], l.m[:n]
	}
	if len(l.at) == 0 {
		return c.Const(8, uint64(l.c))
	}
	// bits of an atom that are always zero do not matter
	for i, x := range l.at {
		if x.Ones != 0xff {
			mm := l.m[i]
			for j := 0; j < 8; j++ {
				if x.Ones>>uint(j)&1 == 0 {
					mm &^= 0xff << (8 * uint(j))
				}
			}
			if mm != l.m[i] {
				// keep the identity as it is: the value is the same
				if l.m[i] == MatID && len(l.at) == 1 && l.c == 0 {
					return x
				}
				l.m[i] = mm
			}
		}
	}
	for i := 0; i < len(l.m); i++ {
		if l.m[i] == 0 {
			l.at = append(l.at[:i:i], l.at[i+1:]...)
			l.m = append(l.m[:i:i], l.m[i+1:]...)
			i--
		}
	}
	if len(l.at) == 0 {
		return c.Const(8, uint64(l.c))
	}
	if len(l.at) == 1 && l.c == 0 && (l.m[0] == MatID || l.m[0] == maskID(byte(l.at[0].Ones))) {
		return l.at[0]
	}
	return c.mk(OpLin, 8, uint64(l.c), nil, l.m, l.at...)
}

func maskID(ones byte) Mat { return MatDiag(ones) }

func (c *Ctx) xor8(a, b *Term) *Term {
	if a == b {
		return c.Const(8, 0)
	}
	if a.IsConst() && a.Val == 0 {
		return b
	}
	if b.IsConst() && b.Val == 0 {
		return a
	}
	var l linAcc
	// merge of two sorted lists
	al, bl := a, b
	if al.Op == OpLin && bl.Op == OpLin {
		l.c = byte(al.Val ^ bl.Val)
		n := len(al.A) + len(bl.A)
		l.at = make([]*Term, 0, n)
		l.m = make([]Mat, 0, n)
		i, j := 0, 0
		for i < len(al.A) || j < len(bl.A) {
			switch {
			case j == len(bl.A) || i < len(al.A) && al.A[i].ID < bl.A[j].ID:
				l.at, l.m = append(l.at, al.A[i]), append(l.m, al.Mats[i])
				i++
			case i == len(al.A) || bl.A[j].ID < al.A[i].ID:
				l.at, l.m = append(l.at, bl.A[j]), append(l.m, bl.Mats[j])
				j++
			default:
				if m := al.Mats[i] ^ bl.Mats[j]; m != 0 {
					l.at, l.m = append(l.at, al.A[i]), append(l.m, m)
				}
				i++
				j++
			}
		}
		return c.fin(&l)
	}
	l.add(a, MatID)
	l.add(b, MatID)
	return c.fin(&l)
}

// XorSum adds up many bytes.
func (c *Ctx) XorSum(ts []*Term) *Term {
	var l linAcc
	for _, t := range ts {
		l.add(t, MatID)
	}
	return c.fin(&l)
}

func (c *Ctx) LinApply(m Mat, k byte, t *Term) *Term {
	var l linAcc
	l.c = k
	l.add(t, m)
	return c.fin(&l)
}

// ---- wide helpers ----

func (c *Ctx) catable(t *Term) bool {
	return t.Op == OpConst || t.Op == OpCat
}

func (c *Ctx) Byte(t *Term, i int) *Term {
	if t.W == 8 {
		if i == 0 {
			return t
		}
		return c.Const(8, 0)
	}
	if i*8 >= int(t.W) {
		return c.Const(8, 0)
	}
	switch t.Op {
	case OpConst:
		return c.Const(8, t.Val>>(8*uint(i)))
	case OpCat:
		return t.A[i]
	case OpZExt:
		return c.Byte(t.A[0], i)
	}
	if t.Ones>>(8*uint(i))&0xff == 0 {
		return c.Const(8, 0)
	}
	if i == 0 && !c.Raw {
		switch t.Op {
		case OpAdd, OpSub, OpMul:
			return c.Bin(t.Op, c.Byte(t.A[0], 0), c.Byte(t.A[1], 0))
		}
	}
	switch t.Op {
	case OpAnd, OpOr, OpXor:
		return c.Bin(t.Op, c.Byte(t.A[0], i), c.Byte(t.A[1], i))
	case OpIte:
		return c.Ite(t.A[0], c.Byte(t.A[1], i), c.Byte(t.A[2], i))
	case OpLShr:
		if t.A[1].IsConst() && t.A[1].Val%8 == 0 {
			return c.Byte(t.A[0], i+int(t.A[1].Val/8))
		}
	case OpSel:
		v := make([]uint64, len(t.Tab.Val))
		for k, x := range t.Tab.Val {
			v[k] = x >> (8 * uint(i)) & 0xff
		}
		return c.Sel(c.NewTable(8, v), t.A[0])
	}
	return c.mk(OpExt, 8, uint64(i), nil, nil, t)
}

func (c *Ctx) bytesOf(t *Term) []*Term {
	n := int(t.W / 8)
	r := make([]*Term, n)
	for i := range r {
		r[i] = c.Byte(t, i)
	}
	return r
}

// Cat builds a wide word from bytes, least significant first.
func (c *Ctx) Cat(bs []*Term) *Term {
	w := uint8(8 * len(bs))
	if len(bs) == 1 {
		return bs[0]
	}
	all := true
	var v uint64
	for i, b := range bs {
		if !b.IsConst() {
			all = false
			break
		}
		v |= b.Val << (8 * uint(i))
	}
	if all {
		return c.Const(w, v)
	}
	// collapse the bytes of one wide term
	if bs[0].Op == OpExt && bs[0].Val == 0 {
		t := bs[0].A[0]
		ok := true
		for i, b := range bs {
			if b == c.Byte(t, i) {
				continue
			}
			ok = false
			break
		}
		if ok {
			if t.W == w {
				return t
			}
			if t.W < w {
				return c.mk(OpZExt, w, 0, nil, nil, t)
			}
		}
	}
	return c.mk(OpCat, w, 0, nil, nil, bs...)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.W == w {
		return t
	}
	if t.IsConst() {
		return c.Const(w, t.Val)
	}
	if t.W == 8 || t.Op == OpCat {
		bs := c.bytesOf(t)
		for len(bs) < int(w/8) {
			bs = append(bs, c.Const(8, 0))
		}
		return c.Cat(bs)
	}
	if t.Op == OpZExt {
		return c.ZExt(t.A[0], w)
	}
	return c.mk(OpZExt, w, 0, nil, nil, t)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.W == w {
		return t
	}
	if t.Hi < 1<<(t.W-1) {
		return c.ZExt(t, w)
	}
	if t.IsConst() {
		return c.Const(w, uint64(signed(t.Val, t.W)))
	}
	return c.mk(OpSExt, w, 0, nil, nil, t)
}

func (c *Ctx) Trunc(t *Term, w uint8) *Term {
	if t.W == w {
		return t
	}
	if t.IsConst() {
		return c.Const(w, t.Val)
	}
	if (t.Op == OpZExt || t.Op == OpSExt) && t.A[0].W >= w {
		return c.Trunc(t.A[0], w)
	}
	if t.Op == OpZExt && t.A[0].W < w {
		return c.ZExt(t.A[0], w)
	}
	if w > 8 && !c.Raw {
		switch t.Op {
		case OpAdd, OpSub, OpMul, OpAnd, OpOr, OpXor:
			return c.Bin(t.Op, c.Trunc(t.A[0], w), c.Trunc(t.A[1], w))
		}
	}
	n := int(w / 8)
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = c.Byte(t, i)
	}
	return c.Cat(bs)
}

func signed(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func constOp(op Op, w uint8, a, b uint64) uint64 {
	m := Mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		if b == 0 {
			if signed(a, w) >= 0 {
				return m
			}
			return 1
		}
		x, y := signed(a, w), signed(b, w)
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		if b == 0 {
			return a
		}
		x, y := signed(a, w), signed(b, w)
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(signed(a, w)>>b) & m
	}
	panic("constOp")
}

// Bin builds a binary operation; shift amounts have the width of the operand.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("width %d %d %s", a.W, b.W, opNames[op]))
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(w, constOp(op, w, a.Val, b.Val))
	}
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if a.IsConst() || !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	}
	zero := func() *Term { return c.Const(w, 0) }
	switch op {
	case OpAdd:
		if b.IsConst() && b.Val == 0 {
			return a
		}
		if a.Ones&b.Ones == 0 {
			return c.Bin(OpXor, a, b)
		}
		if b.IsConst() && a.Op == OpAdd && a.A[1].IsConst() {
			return c.Bin(OpAdd, a.A[0], c.Const(w, a.A[1].Val+b.Val))
		}
		// (x-y)+c as (x+c)-y when that keeps everything in range
		if b.IsConst() && a.Op == OpSub && !c.Raw {
			x, y := a.A[0], a.A[1]
			if s, cy := bits.Add64(x.Hi, b.Val, 0); cy == 0 && s <= Mask(w) && x.Lo+b.Val >= y.Hi {
				return c.mk(OpSub, w, 0, nil, nil, c.Bin(OpAdd, x, b), y)
			}
		}
	case OpSub:
		if a == b {
			return zero()
		}
		if b.IsConst() {
			return c.Bin(OpAdd, a, c.Const(w, -b.Val))
		}
	case OpMul:
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == 1 {
				return a
			}
			if b.Val&(b.Val-1) == 0 {
				return c.Bin(OpShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.Val))))
			}
		}
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		sgn := op == OpSDiv || op == OpSRem
		half := uint64(1) << (w - 1)
		if sgn && a.Hi < half && b.Hi < half && b.Lo > 0 {
			if op == OpSDiv {
				op = OpUDiv
			} else {
				op = OpURem
			}
			sgn = false
		}
		if !sgn && b.IsConst() && b.Val != 0 {
			if b.Val&(b.Val-1) == 0 {
				if op == OpUDiv {
					return c.Bin(OpLShr, a, c.Const(w, uint64(bits.TrailingZeros64(b.Val))))
				}
				return c.Bin(OpAnd, a, c.Const(w, b.Val-1))
			}
		}
		if !sgn && b.Lo > a.Hi {
			if op == OpUDiv {
				return zero()
			}
			return a
		}
		// multiples of the divisor
		if !sgn && b.IsConst() && b.Val != 0 && a.Op == OpMul && a.A[1].IsConst() && a.A[1].Val%b.Val == 0 && !c.Raw {
			if h, l := bits.Mul64(a.A[0].Hi, a.A[1].Val); h == 0 && l <= Mask(w) {
				if op == OpURem {
					return zero()
				}
				return c.Bin(OpMul, a.A[0], c.Const(w, a.A[1].Val/b.Val))
			}
		}
		if !sgn && b.IsConst() && b.Val != 0 && a.Op == OpAdd && !c.Raw {
			for i := 0; i < 2; i++ {
				x, y := a.A[i], a.A[1-i]
				if x.Op != OpMul || !x.A[1].IsConst() || x.A[1].Val%b.Val != 0 {
					continue
				}
				h, l := bits.Mul64(x.A[0].Hi, x.A[1].Val)
				s, cy := bits.Add64(l, y.Hi, 0)
				if h != 0 || cy != 0 || s > Mask(w) {
					continue
				}
				rest := c.Bin(op, y, b)
				if op == OpURem {
					return rest
				}
				return c.Bin(OpAdd, c.Bin(OpMul, x.A[0], c.Const(w, x.A[1].Val/b.Val)), rest)
			}
		}
		// narrow to bytes when both fit
		if !sgn && w > 8 && a.Hi <= 0xff && b.Hi <= 0xff && b.Lo > 0 && !c.Raw {
			return c.ZExt(c.Bin(op, c.Byte(a, 0), c.Byte(b, 0)), w)
		}
		if !sgn && w > 16 && a.Hi <= 0xffff && b.Hi <= 0xffff && b.Lo > 0 && !c.Raw {
			return c.ZExt(c.Bin(op, c.Trunc(a, 16), c.Trunc(b, 16)), w)
		}
	case OpAnd:
		if a == b {
			return a
		}
		if a.Ones&b.Ones == 0 {
			return zero()
		}
		if b.IsConst() && b.Val&a.Ones == a.Ones {
			return a
		}
		if w == 8 && b.IsConst() {
			return c.LinApply(MatDiag(byte(b.Val)), 0, a)
		}
		if w > 8 && (c.catable(a) && c.catable(b)) {
			return c.bytewise(op, a, b)
		}
		if w > 8 && b.IsConst() && bytesMask(b.Val) {
			return c.bytewise(op, a, b)
		}
	case OpOr:
		if a == b {
			return a
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
		if a.Ones&b.Ones == 0 {
			return c.Bin(OpXor, a, b)
		}
		if w == 8 && b.IsConst() {
			return c.xor8(c.LinApply(MatDiag(^byte(b.Val)), 0, a), b)
		}
		if w > 8 && (c.catable(a) && c.catable(b)) {
			return c.bytewise(op, a, b)
		}
	case OpXor:
		if a == b {
			return zero()
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
		if w == 8 {
			return c.xor8(a, b)
		}
		if c.catable(a) && c.catable(b) {
			return c.bytewise(op, a, b)
		}
		if a.Ones&b.Ones == 0 && (c.catable(a) || c.catable(b)) {
			return c.bytewise(op, a, b)
		}
	case OpShl, OpLShr, OpAShr:
		if a.IsConst() && a.Val == 0 {
			return a
		}
		if op == OpAShr && a.Hi < 1<<(w-1) {
			op = OpLShr
		}
		if b.IsConst() {
			s := uint(b.Val)
			if b.Val == 0 {
				return a
			}
			if b.Val >= uint64(w) {
				if op != OpAShr {
					return zero()
				}
				s = uint(w) - 1
				b = c.Const(w, uint64(s))
			}
			if op != OpAShr {
				if w == 8 {
					if op == OpShl {
						return c.LinApply(MatShl(s), 0, a)
					}
					return c.LinApply(MatShr(s), 0, a)
				}
				if c.catable(a) || s%8 == 0 && op == OpLShr {
					return c.shiftBytes(op, a, s)
				}
				if op == OpLShr && a.Hi>>s == 0 {
					return zero()
				}
			}
		}
	}
	return c.mk(op, w, 0, nil, nil, a, b)
}

func bytesMask(v uint64) bool {
	for i := 0; i < 8; i++ {
		if b := v >> (8 * uint(i)) & 0xff; b != 0 && b != 0xff {
			return false
		}
	}
	return true
}

func (c *Ctx) bytewise(op Op, a, b *Term) *Term {
	n := int(a.W / 8)
	r := make([]*Term, n)
	for i := range r {
		r[i] = c.Bin(op, c.Byte(a, i), c.Byte(b, i))
	}
	return c.Cat(r)
}

func (c *Ctx) shiftBytes(op Op, a *Term, s uint) *Term {
	n := int(a.W / 8)
	bs := c.bytesOf(a)
	q, r := int(s/8), s%8
	out := make([]*Term, n)
	at := func(i int) *Term {
		if i < 0 || i >= n {
			return c.Const(8, 0)
		}
		return bs[i]
	}
	for i := range out {
		if op == OpLShr {
			if r == 0 {
				out[i] = at(i + q)
			} else {
				out[i] = c.xor8(c.LinApply(MatShr(r), 0, at(i+q)), c.LinApply(MatShl(8-r), 0, at(i+q+1)))
			}
		} else {
			if r == 0 {
				out[i] = at(i - q)
			} else {
				out[i] = c.xor8(c.LinApply(MatShl(r), 0, at(i-q)), c.LinApply(MatShr(8-r), 0, at(i-q-1)))
			}
		}
	}
	return c.Cat(out)
}

func (c *Ctx) NotBits(a *Term) *Term { return c.Bin(OpXor, a, c.Const(a.W, Mask(a.W))) }
func (c *Ctx) Neg(a *Term) *Term     { return c.Bin(OpSub, c.Const(a.W, 0), a) }

// Sel reads a constant table. The index must be within the table.
func (c *Ctx) Sel(tab *Table, idx *Term) *Term {
	if idx.IsConst() {
		if idx.Val < uint64(len(tab.Val)) {
			return c.Const(tab.W, tab.Val[idx.Val])
		}
		return c.Const(tab.W, 0)
	}
	same := true
	var first uint64
	seen := false
	for i, v := range tab.Val {
		u := uint64(i)
		if u < idx.Lo || u > idx.Hi || u&^idx.Ones != 0 {
			continue
		}
		if !seen {
			first, seen = v, true
		} else if v != first {
			same = false
			break
		}
	}
	if same {
		return c.Const(tab.W, first)
	}
	if tab.W > 8 {
		hi := uint64(0)
		for _, v := range tab.Val {
			hi |= v
		}
		if hi <= 0xff {
			return c.ZExt(c.Sel(c.NewTable(8, tab.Val), idx), tab.W)
		}
	}
	if idx.W > 8 && idx.Hi <= 0xff {
		b := c.Byte(idx, 0)
		if tab.W == 8 && !c.Raw {
			return c.byteFn(tab, b)
		}
		return c.mk(OpSel, tab.W, 0, tab, nil, b)
	}
	if idx.W == 8 && tab.W == 8 && !c.Raw {
		return c.byteFn(tab, idx)
	}
	return c.mk(OpSel, tab.W, 0, tab, nil, idx)
}

// byteFn applies a table to a byte: a linear form if the table is affine on the values the byte can have.
func (c *Ctx) byteFn(tab *Table, b *Term) *Term {
	val := tab.Val
	ones := byte(b.Ones)
	if b.gen {
		return c.mk(OpSel, 8, 0, tab, nil, b)
	}
	get := func(i byte) byte {
		if int(i) < len(val) {
			return byte(val[i])
		}
		return 0
	}
	k := get(0)
	var cols [8]byte
	for j := 0; j < 8; j++ {
		if ones>>uint(j)&1 != 0 {
			cols[j] = get(1<<uint(j)) ^ k
		}
	}
	m := MatFromCols(cols)
	affine, inv := true, true
	var sc byte
	sc = get(1)
	for i := 0; i < 256; i++ {
		x := byte(i)
		if x&^ones != 0 || uint64(x) < b.Lo || uint64(x) > b.Hi {
			if uint64(x) < b.Lo || uint64(x) > b.Hi {
				if x&^ones == 0 && m.Apply(x)^k != get(x) {
					// not reachable: free
				}
			}
			continue
		}
		if m.Apply(x)^k != get(x) {
			affine = false
		}
		if gfmul[gfinv[x]][sc] != get(x) {
			inv = false
		}
		if !affine && !inv {
			break
		}
	}
	if affine {
		return c.LinApply(m, k, b)
	}
	if inv {
		return c.LinApply(MulMat(sc), 0, c.Inv(b))
	}
	if b.IsConst() {
		return c.Const(8, uint64(get(byte(b.Val))))
	}
	// normalise the table: full length, unreachable entries zero
	full := make([]uint64, 256)
	for i := range full {
		x := byte(i)
		if x&^ones == 0 && uint64(x) >= b.Lo && uint64(x) <= b.Hi {
			full[i] = uint64(get(x))
		}
	}
	// compose with an affine invertible map of a single atom, so that equal functions of one atom are equal terms
	if b.Op == OpLin && len(b.A) == 1 {
		at := b.A[0]
		f2 := make([]uint64, 256)
		for i := range f2 {
			if byte(i)&^byte(at.Ones) == 0 {
				f2[i] = full[b.Mats[0].Apply(byte(i))^byte(b.Val)]
			}
		}
		return c.byteFn(c.NewTable(8, f2), at)
	}
	if b.Op == OpTab && !b.shifted() {
		f2 := make([]uint64, 256)
		for i := range f2 {
			f2[i] = full[byte(b.Tab.Val[i])]
		}
		return c.byteFn(c.NewTable(8, f2), b.A[0])
	}
	return c.mk(OpTab, 8, 0, c.NewTable(8, full), nil, b)
}

// shifted says whether a byte is a variable plus a constant; such bytes are treated like variables.
func (t *Term) shifted() bool {
	if t.Op != OpTab || t.A[0].Op != OpVar {
		return false
	}
	_, ok := addTab(t)
	return ok
}

// Inv is the inverse in GF(2^8), 0 for 0.
func (c *Ctx) Inv(b *Term) *Term {
	if b.IsConst() {
		return c.Const(8, uint64(gfinv[b.Val]))
	}
	if b.Op == OpInv {
		return b.A[0]
	}
	// pull a common scalar out of a single-atom form
	if b.Op == OpLin && len(b.A) == 1 && b.Val == 0 {
		if s, ok := Scalar(b.Mats[0]); ok {
			return c.LinApply(MulMat(gfinv[s]), 0, c.Inv(b.A[0]))
		}
	}
	if b.Op == OpMono {
		r := c.Const(8, 1)
		for _, x := range b.A {
			r = c.Mul(r, c.Inv(x))
		}
		return r
	}
	return c.mk(OpInv, 8, 0, nil, nil, b)
}

// MaxTerms bounds the number of monomials a product is expanded to.
const MaxTerms = 4096

// Mul is the product in GF(2^8).
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		return c.LinApply(MulMat(byte(b.Val)), 0, a)
	}
	na, nb := linLen(a), linLen(b)
	if na*nb > MaxTerms {
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.mk(OpMono, 8, 0, nil, nil, a, b)
	}
	var l linAcc
	c.eachMono(a, func(ca byte, ma []*Term) {
		c.eachMono(b, func(cb byte, mb []*Term) {
			t := c.mono(ma, mb)
			l.add(t, MulMat(gfmul[ca][cb]))
		})
	})
	return c.fin(&l)
}

func linLen(a *Term) int {
	if a.Op == OpLin {
		n := 0
		for _, m := range a.Mats {
			if _, ok := Scalar(m); ok {
				n++
			} else {
				n += 8
			}
		}
		if a.Val != 0 {
			n++
		}
		return n
	}
	return 1
}

// eachMono calls f for every term coefficient*monomial of a byte, as a polynomial over GF(2^8).
func (c *Ctx) eachMono(a *Term, f func(co byte, m []*Term)) {
	switch a.Op {
	case OpConst:
		f(byte(a.Val), nil)
	case OpLin:
		if a.Val != 0 {
			f(byte(a.Val), nil)
		}
		for i, x := range a.A {
			var base []*Term
			if x.Op == OpMono {
				base = x.A
			} else {
				base = []*Term{x}
			}
			if s, ok := Scalar(a.Mats[i]); ok {
				f(s, base)
				continue
			}
			co := Linearised(a.Mats[i])
			for k := 0; k < 8; k++ {
				if co[k] == 0 {
					continue
				}
				var m []*Term
				for r := 0; r < 1<<uint(k); r++ {
					m = append(m, base...)
				}
				sort.Slice(m, func(i, j int) bool { return m[i].ID < m[j].ID })
				f(co[k], m)
			}
		}
	case OpMono:
		f(1, a.A)
	default:
		f(1, []*Term{a})
	}
}

// mono multiplies two monomials.
func (c *Ctx) mono(a, b []*Term) *Term {
	m := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j == len(b) || i < len(a) && a[i].ID <= b[j].ID {
			m = append(m, a[i])
			i++
		} else {
			m = append(m, b[j])
			j++
		}
	}
	if len(m) == 0 {
		return c.Const(8, 1)
	}
	// functions of one byte are multiplied
	for i, x := range m {
		if x.Op != OpTab {
			continue
		}
		for j, y := range m {
			if j == i || !(y.Op == OpTab && j > i || y.Op == OpInv) || y.A[0] != x.A[0] {
				continue
			}
			v := make([]uint64, 256)
			for k := range v {
				var p, q byte
				if k < len(x.Tab.Val) {
					p = byte(x.Tab.Val[k])
				}
				if y.Op == OpInv {
					q = gfinv[k]
				} else if k < len(y.Tab.Val) {
					q = byte(y.Tab.Val[k])
				}
				v[k] = uint64(gfmul[p][q])
			}
			var rest []*Term
			for k, z := range m {
				if k != i && k != j {
					rest = append(rest, z)
				}
			}
			return c.Mul(c.byteFn(c.NewTable(8, v), x.A[0]), c.mono(rest, nil))
		}
	}
	// exponents: x^256 = x
	if len(m) > 255 {
		out := m[:0]
		for i := 0; i < len(m); {
			j := i
			for j < len(m) && m[j] == m[i] {
				j++
			}
			n := j - i
			for n > 255 {
				n -= 255
			}
			for k := 0; k < n; k++ {
				out = append(out, m[i+k])
			}
			i = j
		}
		m = out
	}
	if len(m) == 1 {
		return m[0]
	}
	// a pure power x^(2^i) is a linear image
	if m[0] == m[len(m)-1] && len(m)&(len(m)-1) == 0 {
		return c.LinApply(frob[bits.TrailingZeros(uint(len(m)))%8], 0, m[0])
	}
	return c.mk(OpMono, 8, 0, nil, nil, m...)
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == OpBNot {
		return a.A[0]
	}
	return c.mk(OpBNot, 0, 0, nil, nil, a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if a.Op == OpBNot && a.A[0] == b || b.Op == OpBNot && b.A[0] == a {
		return c.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, 0, nil, nil, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if a.Op == OpBNot && a.A[0] == b || b.Op == OpBNot && b.A[0] == a {
		return c.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpBOr, 0, 0, nil, nil, a, b)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.IsTrue() || a == b {
		return a
	}
	if p.IsFalse() {
		return b
	}
	if p.Op == OpBNot {
		return c.Ite(p.A[0], b, a)
	}
	if a.W == 0 {
		if a.IsConst() && b.IsConst() {
			if a.Val == 1 {
				return p
			}
			return c.Not(p)
		}
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	if a.W > 8 && c.catable(a) && c.catable(b) {
		n := int(a.W / 8)
		r := make([]*Term, n)
		for i := range r {
			r[i] = c.Ite(p, c.Byte(a, i), c.Byte(b, i))
		}
		return c.Cat(r)
	}
	return c.mk(OpIte, a.W, 0, nil, nil, p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.Hi < b.Lo || b.Hi < a.Lo {
		return c.False
	}
	if a.IsConst() || !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	if b.IsConst() && b.Val&^a.Ones != 0 {
		return c.False
	}
	if b.IsConst() && a.Op == OpIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
	}
	if a.W == 8 {
		if !c.Raw {
			a, b = c.Canon(a), c.Canon(b)
		}
		d := c.xor8(a, b)
		if d.IsConst() {
			return c.Bool(d.Val == 0)
		}
		// a single atom: compare it with the constant
		if d.Op == OpLin {
			if len(d.A) == 1 {
				if inv, ok := d.Mats[0].Inverse(); ok {
					at := d.A[0]
					v := inv.Apply(byte(d.Val))
					if uint64(v) < at.Lo || uint64(v) > at.Hi || uint64(v)&^at.Ones != 0 {
						return c.False
					}
					if at.Op == OpTab {
						pre, n := 0, 0
						for i, y := range at.Tab.Val {
							if reach(at.A[0], uint64(i)) && y == uint64(v) {
								pre, n = i, n+1
							}
						}
						if n == 0 {
							return c.False
						}
						if n == 1 {
							return c.Eq(at.A[0], c.Const(8, uint64(pre)))
						}
					}
					return c.mk(OpEq, 0, 0, nil, nil, at, c.Const(8, uint64(v)))
				}
			}
			if len(d.A) == 2 && d.Val == 0 && d.Mats[0] == d.Mats[1] && d.A[0].Op == OpTab && d.A[1].Op == OpTab {
				if _, ok := d.Mats[0].Inverse(); ok && injective(d.A[0], d.A[1]) {
					return c.eqVia(d, c.Eq(d.A[0].A[0], d.A[1].A[0]))
				}
			}
			if len(d.A) == 2 && d.Val == 0 && d.Mats[0] == d.Mats[1] && d.A[0].Op == OpInv && d.A[1].Op == OpInv {
				if _, ok := d.Mats[0].Inverse(); ok {
					return c.eqVia(d, c.Eq(d.A[0].A[0], d.A[1].A[0]))
				}
			}
			if byte(d.Val)&^linImage(d) != 0 {
				return c.False
			}
		}
		return c.mk(OpEq, 0, 0, nil, nil, d, c.Const(8, 0))
	}
	if c.catable(a) && c.catable(b) || a.Op == OpCat && b.Op == OpCat {
		r := c.True
		for i := 0; i < int(a.W/8); i++ {
			r = c.And(r, c.Eq(c.Byte(a, i), c.Byte(b, i)))
		}
		return r
	}
	if a.Op == OpZExt && b.IsConst() {
		return c.Eq(a.A[0], c.Const(a.A[0].W, b.Val))
	}
	if a.Op == OpAdd && a.A[1].IsConst() && b.IsConst() {
		return c.Eq(a.A[0], c.Const(a.W, b.Val-a.A[1].Val))
	}
	return c.mk(OpEq, 0, 0, nil, nil, a, b)
}

// eqVia remembers that r says that d is 0.
func (c *Ctx) eqVia(d, r *Term) *Term {
	if r.Op != OpEq {
		return r
	}
	l := c.eqFrom[r]
	for _, x := range l {
		if x == d {
			return r
		}
	}
	if c.eqFrom == nil {
		c.eqFrom = map[*Term][]*Term{}
	}
	c.eqFrom[r] = append(l, d)
	return r
}

// injective says whether two applications of the same function are equal only for equal arguments.
func injective(a, b *Term) bool {
	get := func(t *Term, i int) (uint64, bool) {
		if !reach(t.A[0], uint64(i)) || i >= len(t.Tab.Val) {
			return 0, false
		}
		return t.Tab.Val[i], true
	}
	var at [256]int
	for i := range at {
		at[i] = -1
	}
	for i := 0; i < 256; i++ {
		x, ok := get(a, i)
		y, ok2 := get(b, i)
		if ok && ok2 && x != y {
			return false
		}
		if !ok && !ok2 {
			continue
		}
		if !ok {
			x = y
		}
		if at[byte(x)] >= 0 {
			return false
		}
		at[byte(x)] = i
	}
	return true
}

func linImage(d *Term) byte {
	var r byte
	for i, x := range d.A {
		r |= d.Mats[i].Image(byte(x.Ones))
	}
	return r
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Hi < b.Lo {
		return c.True
	}
	if a.Lo >= b.Hi {
		return c.False
	}
	if a.W > 8 && a.Hi <= 0xff && b.Hi <= 0xff {
		return c.Ult(c.Byte(a, 0), c.Byte(b, 0))
	}
	if a.W > 16 && a.Hi <= 0xffff && b.Hi <= 0xffff {
		return c.Ult(c.Trunc(a, 16), c.Trunc(b, 16))
	}
	return c.mk(OpUlt, 0, 0, nil, nil, a, b)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	half := uint64(1) << (a.W - 1)
	an, bn := a.Lo >= half, b.Lo >= half
	ap, bp := a.Hi < half, b.Hi < half
	if ap && bp || an && bn {
		return c.Ult(a, b)
	}
	if an && bp {
		return c.True
	}
	if ap && bn {
		return c.False
	}
	if a == b {
		return c.False
	}
	return c.mk(OpSlt, 0, 0, nil, nil, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			return fmt.Sprint(t.Val == 1)
		}
		return fmt.Sprintf("%d:%d", t.Val, t.W)
	case OpVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.Op]
	if t.Op == OpLin {
		s += fmt.Sprintf(" %#x", t.Val)
	}
	if t.Op == OpExt {
		s += fmt.Sprintf(" %d", t.Val)
	}
	if t.Tab != nil {
		s += fmt.Sprintf(" T%d", t.Tab.ID)
	}
	for i, a := range t.A {
		if i > 12 {
			s += " …"
			break
		}
		s += " "
		if t.Op == OpLin && t.Mats[i] != MatID {
			if k, ok := Scalar(t.Mats[i]); ok {
				s += fmt.Sprintf("%d*", k)
			} else {
				s += fmt.Sprintf("[%x]", uint64(t.Mats[i]))
			}
		}
		s += a.str(d - 1)
	}
	return s + ")"
}
