package sym

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"
)

// ---- evaluation ----

// EvalOp computes one operation on concrete arguments.
func EvalOp(t *Term, v []uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpLin:
		r := byte(t.Val)
		for i, m := range t.Mats {
			r ^= m.Apply(byte(v[i]))
		}
		return uint64(r)
	case OpMono:
		r := byte(1)
		for _, x := range v {
			r = gfmul[r][byte(x)]
		}
		return uint64(r)
	case OpInv:
		return uint64(gfinv[byte(v[0])])
	case OpTab, OpSel:
		if v[0] < uint64(len(t.Tab.Val)) {
			return t.Tab.Val[v[0]]
		}
		return 0
	case OpCat:
		var r uint64
		for i, x := range v {
			r |= (x & 0xff) << (8 * uint(i))
		}
		return r
	case OpExt:
		return v[0] >> (8 * t.Val) & 0xff
	case OpZExt:
		return v[0]
	case OpSExt:
		return uint64(signed(v[0], t.A[0].W)) & Mask(t.W)
	case OpIte:
		if v[0] != 0 {
			return v[1]
		}
		return v[2]
	case OpEq:
		return b2u(v[0] == v[1])
	case OpUlt:
		return b2u(v[0] < v[1])
	case OpSlt:
		return b2u(signed(v[0], t.A[0].W) < signed(v[1], t.A[0].W))
	case OpBAnd:
		return v[0] & v[1]
	case OpBOr:
		return v[0] | v[1]
	case OpBNot:
		return v[0] ^ 1
	}
	return constOp(t.Op, t.W, v[0], v[1])
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval computes a term under an assignment of its variables (missing ones have value def(var)).
func Eval(t *Term, env map[*Term]uint64, memo map[*Term]uint64, def func(*Term) uint64) uint64 {
	if t.Op == OpConst {
		return t.Val
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	if t.Op == OpVar {
		v, ok := env[t]
		if !ok {
			v = def(t)
			env[t] = v
		}
		r = v
	} else {
		var buf [8]uint64
		v := buf[:0]
		for _, a := range t.A {
			v = append(v, Eval(a, env, memo, def))
		}
		r = EvalOp(t, v)
	}
	memo[t] = r
	return r
}

// ---- classification of byte functions of one or two bytes ----

type shape struct {
	Key   string
	Kind  int // 0 unknown, 1 unary, 2 bilinear over (a^ea, b^eb)
	Tab   []uint64
	K     byte
	A, B  Mat
	N     [8]Mat // N[l] applied to a', times b'^(2^l)
	EA    bool   // a' = 1/a
	EB    bool
	CondA bool // valid only if a is not zero
	CondB bool
	Swap  bool // kind 3: the sum of a'^(2^l) times G[l](b), and H(b); kind 4: G[0](a)*G[1](b)
	G     [8][]uint64
	H     []uint64
	P     *prog // what was classified
	Leaf  []*Term
	Used  bool
	Done  bool // certified
}

const maxCut = 4000

// cut collects the sub-terms of t that are canonical bytes. It fails on other variables.
func cut(t *Term, seen map[*Term]bool, leaves *[]*Term, order *[]*Term, level int) bool {
	return cutEq(t, seen, leaves, order, level, nil, nil)
}

// cutEq takes some comparisons for comparisons of other bytes with 0.
func cutEq(t *Term, seen map[*Term]bool, leaves *[]*Term, order *[]*Term, level int, repl map[*Term][2]*Term, alias map[*Term]*Term) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if r, ok := repl[t]; ok {
		for _, x := range r {
			if !cutEq(x, seen, leaves, order, level, repl, alias) {
				return false
			}
		}
		n := &Term{Op: OpEq, A: r[:]}
		alias[n] = t
		*order = append(*order, n)
		return true
	}
	if len(seen) > maxCut {
		return false
	}
	if t.Op == OpConst {
		*order = append(*order, t)
		return true
	}
	if t.W == 8 && !t.gen {
		expand := false
		switch level {
		case 1:
			expand = t.Op == OpInv || t.Op == OpTab && !t.shifted() || t.Op == OpLin && len(t.A) == 1
		case 2:
			expand = t.Op == OpLin || t.Op == OpMono || t.Op == OpInv || t.Op == OpTab
		}
		if !expand {
			*leaves = append(*leaves, t)
			if len(*leaves) > 2 && level == 2 || len(*leaves) > 16 {
				return false
			}
			return true
		}
	} else if t.Op == OpVar {
		return false
	}
	for _, a := range t.A {
		if !cutEq(a, seen, leaves, order, level, repl, alias) {
			return false
		}
	}
	*order = append(*order, t)
	return true
}

type prog struct {
	nodes []*Term
	args  [][]int
	nleaf int
	buf   []uint64
}

func mkProg(order, leaves []*Term, alias map[*Term]*Term) *prog {
	p := &prog{nleaf: len(leaves)}
	idx := map[*Term]int{}
	for i, l := range leaves {
		idx[l] = i
	}
	for _, t := range order {
		a := make([]int, len(t.A))
		for i, x := range t.A {
			a[i] = idx[x]
		}
		idx[t] = len(leaves) + len(p.nodes)
		if o := alias[t]; o != nil {
			idx[o] = idx[t]
		}
		p.nodes = append(p.nodes, t)
		p.args = append(p.args, a)
	}
	p.buf = make([]uint64, len(leaves)+len(p.nodes))
	return p
}

func (p *prog) run(vals ...uint64) uint64 {
	copy(p.buf, vals)
	var tmp [16]uint64
	for i, t := range p.nodes {
		var r uint64
		switch t.Op {
		case OpConst:
			r = t.Val
		default:
			v := tmp[:0]
			for _, a := range p.args[i] {
				v = append(v, p.buf[a])
			}
			r = EvalOp(t, v)
		}
		p.buf[p.nleaf+i] = r
	}
	return p.buf[len(p.buf)-1]
}

func (p *prog) key(leaves []*Term) string {
	var k []byte
	for _, l := range leaves {
		k = binary.LittleEndian.AppendUint32(k, uint32(l.Ones))
		k = append(k, byte(l.Lo), byte(l.Hi))
	}
	k = append(k, '|')
	for i, t := range p.nodes {
		k = append(k, byte(t.Op), t.W)
		k = binary.LittleEndian.AppendUint64(k, t.Val)
		if t.Tab != nil {
			k = binary.LittleEndian.AppendUint32(k, uint32(t.Tab.ID))
		}
		for j, a := range p.args[i] {
			k = binary.LittleEndian.AppendUint32(k, uint32(a))
			if t.Mats != nil {
				k = binary.LittleEndian.AppendUint64(k, uint64(t.Mats[j]))
			}
		}
	}
	return string(k)
}

func reach(l *Term, x uint64) bool {
	return x&^l.Ones == 0 && x >= l.Lo && x <= l.Hi
}

// NonZero, if set, reports whether a byte is known not to be zero on the current path.
type NonZeroFunc func(*Term) bool

// Canon rewrites a byte built from tables, selections and arithmetic into its
// canonical form, when it is a function of one byte, or bilinear in two bytes
// or their inverses. The decision looks at all values of the bytes.
func (c *Ctx) Canon(t *Term) *Term { return c.CanonNZ(t, nil) }

func (c *Ctx) CanonNZ(t *Term, nz NonZeroFunc) *Term {
	if c.Raw || !t.gen || t.W != 8 {
		return t
	}
	if t.canon != nil && (t.canon != t || nz == nil) {
		return t.canon
	}
	r, cond := c.classify(t, nz)
	if !cond {
		t.canon = r
	} else if t.canon == nil {
		t.canon = t
	}
	return r
}

func (c *Ctx) classify(t *Term, nz NonZeroFunc) (res *Term, conditional bool) {
	var leaves []*Term
	var sh *shape
	tried := false
	var sh3 *shape
	var leaves3 []*Term
	for _, level := range []int{1, 0, 2} {
		var order []*Term
		leaves = nil
		if !cut(t, map[*Term]bool{}, &leaves, &order, level) {
			continue
		}
		alias := map[*Term]*Term{}
		if len(leaves) > 1 && len(c.eqFrom) > 0 {
			// comparisons that were simplified to comparisons of something else
			repl := map[*Term][2]*Term{}
			for _, o := range order {
				if o.Op == OpEq {
					for _, d := range c.eqFrom[o] {
						for _, l := range leaves {
							if l == d {
								repl[o] = [2]*Term{d, c.Const(8, 0)}
							}
						}
					}
				}
			}
			if len(repl) > 0 {
				leaves, order = nil, nil
				if !cutEq(t, map[*Term]bool{}, &leaves, &order, level, repl, alias) {
					continue
				}
			}
		}
		if leaves, order = relate(leaves, order, alias); len(leaves) > 2 {
			continue
		}
		p := mkProg(order, leaves, alias)
		if len(leaves) == 0 {
			return c.Const(8, p.run()), false
		}
		tried = true
		key := p.key(leaves)
		sh = c.shapes[key]
		if sh == nil {
			sh = c.classifyShape(p, leaves)
			sh.Key = key
			sh.P = p
			sh.Leaf = leaves
			c.shapes[key] = sh
			c.Shapes = append(c.Shapes, sh)
			c.Stat.Classified++
			if os.Getenv("VERIF_SHAPE") != "" {
				fmt.Fprintln(os.Stderr, "shape", sh.Kind, sh.EA, sh.EB, sh.CondA, sh.CondB, level, t, "LEAVES", leaves)
			}
		}
		if sh.Kind == 1 || sh.Kind == 2 {
			break
		}
		if sh.Kind == 3 && (sh3 == nil || sh3.Kind == 4) || sh.Kind == 4 && sh3 == nil {
			sh3, leaves3 = sh, leaves
		}
	}
	if !tried {
		return t, false
	}
	if sh.Kind == 0 || sh.Kind >= 3 {
		sh, leaves = sh3, leaves3
	}
	if sh == nil {
		return t, false
	}
	if sh.CondA || sh.CondB {
		if nz == nil {
			return t, true
		}
		if sh.CondA && !nz(leaves[0]) || sh.CondB && !nz(leaves[1]) {
			return t, true
		}
		conditional = true
	}
	sh.Used = true
	return c.instance(sh, leaves), conditional
}

// IsCanonical says whether a byte is in canonical form.
func (c *Ctx) IsCanonical(t *Term) bool { return !t.gen }

// FewLeaves says whether t is a function of at most two canonical bytes.
func (c *Ctx) FewLeaves(t *Term) bool {
	if t.IsConst() || t.W == 8 && !t.gen {
		return true
	}
	for _, level := range []int{1, 0, 2} {
		var leaves, order []*Term
		if cut(t, map[*Term]bool{}, &leaves, &order, level) {
			if leaves, _ = relate(leaves, order, map[*Term]*Term{}); len(leaves) <= 2 {
				return true
			}
		}
	}
	return false
}

// instance is the canonical form of a shape for some bytes.
func (c *Ctx) instance(sh *shape, leaves []*Term) *Term {
	switch sh.Kind {
	case 1:
		return c.byteFn(c.NewTable(8, sh.Tab), leaves[0])
	case 2:
		a, b := leaves[0], leaves[1]
		if sh.EA {
			a = c.Inv(a)
		}
		if sh.EB {
			b = c.Inv(b)
		}
		r := c.LinApply(sh.A, sh.K, a)
		r = c.xor8(r, c.LinApply(sh.B, 0, b))
		for l := 0; l < 8; l++ {
			if sh.N[l] != 0 {
				r = c.xor8(r, c.Mul(c.LinApply(sh.N[l], 0, a), c.LinApply(frob[l], 0, b)))
			}
		}
		return r
	case 4:
		return c.Mul(c.byteFn(c.NewTable(8, sh.G[0]), leaves[0]), c.byteFn(c.NewTable(8, sh.G[1]), leaves[1]))
	}
	a, b := leaves[0], leaves[1]
	if sh.Swap {
		a, b = b, a
	}
	if sh.EA {
		a = c.Inv(a)
	}
	r := c.byteFn(c.NewTable(8, sh.H), b)
	for l := 0; l < 8; l++ {
		if sh.G[l] != nil {
			r = c.xor8(r, c.Mul(c.LinApply(frob[l], 0, a), c.byteFn(c.NewTable(8, sh.G[l]), b)))
		}
	}
	return r
}

func (c *Ctx) classifyShape(p *prog, leaves []*Term) *shape {
	sh := &shape{}
	if len(leaves) == 1 {
		sh.Kind = 1
		sh.Tab = make([]uint64, 256)
		for i := range sh.Tab {
			if reach(leaves[0], uint64(i)) {
				sh.Tab[i] = p.run(uint64(i))
				c.Stat.Evaluated++
			}
		}
		return sh
	}
	ra, rb := leaves[0], leaves[1]
	cache := make([]int16, 65536)
	for i := range cache {
		cache[i] = -1
	}
	f := func(a, b byte) byte {
		k := int(a)<<8 | int(b)
		if cache[k] < 0 {
			cache[k] = int16(p.run(uint64(a), uint64(b)))
			c.Stat.Evaluated++
		}
		return byte(cache[k])
	}
	for variant := 0; variant < 4; variant++ {
		ea, eb := variant&1 != 0, variant&2 != 0
		inv := func(e bool, x byte) byte {
			if e {
				return gfinv[x]
			}
			return x
		}
		// g(x,y) = f(x^±1, y^±1); skip: not reachable
		for _, exclude := range []int{0, 1, 2, 3} {
			xa, xb := exclude&1 != 0, exclude&2 != 0
			if xa && !ea || xb && !eb {
				continue
			}
			usable := func(x, y byte) bool {
				if !reach(ra, uint64(inv(ea, x))) || !reach(rb, uint64(inv(eb, y))) {
					return false
				}
				return !(xa && x == 0 || xb && y == 0)
			}
			g := func(x, y byte) byte {
				if !usable(x, y) {
					return 0
				}
				return f(inv(ea, x), inv(eb, y))
			}
			k := g(0, 0)
			var ca, cb [8]byte
			var bl [8][8]byte
			for i := 0; i < 8; i++ {
				e := byte(1) << uint(i)
				if usable(e, 0) {
					ca[i] = g(e, 0) ^ k
				}
				if usable(0, e) {
					cb[i] = g(0, e) ^ k
				}
			}
			for i := 0; i < 8; i++ {
				for j := 0; j < 8; j++ {
					x, y := byte(1)<<uint(i), byte(1)<<uint(j)
					if usable(x, y) {
						bl[i][j] = g(x, y) ^ k ^ ca[i] ^ cb[j]
					}
				}
			}
			var mi [8]Mat
			for i := range mi {
				mi[i] = MatFromCols(bl[i])
			}
			A, B := MatFromCols(ca), MatFromCols(cb)
			h := func(x, y byte) byte {
				var m Mat
				for i := 0; i < 8; i++ {
					if x>>uint(i)&1 != 0 {
						m ^= mi[i]
					}
				}
				return k ^ A.Apply(x) ^ B.Apply(y) ^ m.Apply(y)
			}
			okay := true
			// a few points first
			for i := 0; i < 64 && okay; i++ {
				x, y := byte(i*37+11), byte(i*101+3)
				okay = !usable(x, y) || h(x, y) == g(x, y)
			}
			for x := 0; x < 256 && okay; x++ {
				for y := 0; y < 256; y++ {
					if usable(byte(x), byte(y)) && h(byte(x), byte(y)) != g(byte(x), byte(y)) {
						okay = false
						break
					}
				}
			}
			if !okay {
				continue
			}
			sh.Kind, sh.EA, sh.EB, sh.CondA, sh.CondB = 2, ea, eb, xa, xb
			sh.K, sh.A, sh.B = k, A, B
			var n [8][8]byte
			for i := 0; i < 8; i++ {
				co := Linearised(mi[i])
				for l := 0; l < 8; l++ {
					n[l][i] = co[l]
				}
			}
			for l := range n {
				sh.N[l] = MatFromCols(n[l])
			}
			return sh
		}
	}
	// affine in one of the bytes for every value of the other
	for variant := 0; variant < 4; variant++ {
		swap, ea := variant&1 != 0, variant&2 != 0
		la, lb := ra, rb
		if swap {
			la, lb = rb, ra
		}
		arg := func(x byte) byte {
			if ea {
				return gfinv[x]
			}
			return x
		}
		g := func(x, y byte) byte {
			x = arg(x)
			if swap {
				return f(y, x)
			}
			return f(x, y)
		}
		var G [8][]uint64
		H := make([]uint64, 256)
		okay := true
		for y := 0; y < 256 && okay; y++ {
			if !reach(lb, uint64(y)) {
				continue
			}
			var k byte
			if reach(la, uint64(arg(0))) {
				k = g(0, byte(y))
			}
			var cols [8]byte
			for i := 0; i < 8; i++ {
				e := byte(1) << uint(i)
				if reach(la, uint64(arg(e))) {
					cols[i] = g(e, byte(y)) ^ k
				}
			}
			mt := MatFromCols(cols)
			for x := 0; x < 256; x++ {
				if reach(la, uint64(arg(byte(x)))) && mt.Apply(byte(x))^k != g(byte(x), byte(y)) {
					okay = false
					break
				}
			}
			if !okay {
				break
			}
			H[y] = uint64(k)
			for l, co := range Linearised(mt) {
				if co != 0 {
					if G[l] == nil {
						G[l] = make([]uint64, 256)
					}
					G[l][y] = uint64(co)
				}
			}
		}
		if okay {
			sh.Kind, sh.Swap, sh.EA, sh.G, sh.H = 3, swap, ea, G, H
			return sh
		}
	}
	// a product of functions of each byte
	a0, b0 := -1, -1
	for x := 0; x < 256 && a0 < 0; x++ {
		for y := 0; y < 256; y++ {
			if reach(ra, uint64(x)) && reach(rb, uint64(y)) && f(byte(x), byte(y)) != 0 {
				a0, b0 = x, y
				break
			}
		}
	}
	if a0 < 0 {
		return sh
	}
	P, Q := make([]uint64, 256), make([]uint64, 256)
	sc := gfinv[f(byte(a0), byte(b0))]
	for x := 0; x < 256; x++ {
		if reach(ra, uint64(x)) {
			P[x] = uint64(gfmul[f(byte(x), byte(b0))][sc])
		}
		if reach(rb, uint64(x)) {
			Q[x] = uint64(f(byte(a0), byte(x)))
		}
	}
	// exp(log+log) before zero operands are dealt with is not yet a product worth having
	if P[0] != 0 || Q[0] != 0 {
		return sh
	}
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			if reach(ra, uint64(x)) && reach(rb, uint64(y)) && f(byte(x), byte(y)) != gfmul[byte(P[x])][byte(Q[y])] {
				return sh
			}
		}
	}
	sh.Kind, sh.G[0], sh.G[1] = 4, P, Q
	return sh
}

// ---- identities of rational functions ----

// ZeroByte reports whether a byte is zero on every path where the returned
// denominators are not zero; ok is false if that could not be established.
func (c *Ctx) ZeroByte(d *Term) (ok bool, denoms []*Term) { return c.zeroByte(d, 0) }

// zeroUni groups monomials by what does not depend on one variable, and looks at all values of that variable.
func (c *Ctx) zeroUni(d *Term) (ok bool, denoms []*Term) {
	if d.W != 8 || d.gen {
		return false, nil
	}
	uni := map[*Term]*Term{} // factors that depend on one variable only, and neither are it nor powers of it
	var order []*Term
	seen := map[*Term]bool{}
	n := 0
	c.eachMono(d, func(co byte, m []*Term) {
		n++
		for _, x := range m {
			if seen[x] {
				continue
			}
			seen[x] = true
			if vs := VarsOf(x); len(vs) == 1 && vs[0].W == 8 {
				uni[x] = vs[0]
				if x.Op == OpTab || x.Op == OpInv {
					dup := false
					for _, o := range order {
						dup = dup || o == vs[0]
					}
					if !dup {
						order = append(order, vs[0])
					}
				}
			}
		}
	})
	if n > 20000 || len(order) > 6 {
		return false, nil
	}
	for _, v := range order {
		type grp struct {
			rest []*Term
			tab  [256]byte
		}
		groups := map[string]*grp{}
		var gl []*grp
		tabs := map[*Term]*[256]byte{}
		val := func(x *Term) *[256]byte {
			if t := tabs[x]; t != nil {
				return t
			}
			t := new([256]byte)
			for i := 0; i < 256; i++ {
				t[i] = byte(Eval(x, map[*Term]uint64{v: uint64(i)}, map[*Term]uint64{}, func(*Term) uint64 { return 0 }))
			}
			tabs[x] = t
			return t
		}
		c.eachMono(d, func(co byte, m []*Term) {
			var rest []*Term
			var k []byte
			var own []*Term
			for _, x := range m {
				if uni[x] == v {
					own = append(own, x)
				} else {
					rest = append(rest, x)
					k = binary.LittleEndian.AppendUint32(k, uint32(x.ID))
				}
			}
			g := groups[string(k)]
			if g == nil {
				g = &grp{rest: rest}
				groups[string(k)] = g
				gl = append(gl, g)
			}
			for i := range g.tab {
				r := co
				for _, x := range own {
					r = gfmul[r][val(x)[i]]
				}
				g.tab[i] ^= r
			}
		})
		// a few values for which it is not zero may be impossible
		var bad []int
		for i := 0; i < 256; i++ {
			for _, g := range gl {
				if g.tab[i] != 0 && reach(v, uint64(i)) {
					bad = append(bad, i)
					break
				}
			}
		}
		if len(bad) <= 4 {
			for _, i := range bad {
				denoms = append(denoms, c.xor8(v, c.Const(8, uint64(i))))
			}
			return true, denoms
		}
		var sum []*Term
		for _, g := range gl {
			full := make([]uint64, 256)
			nz := false
			for i := range full {
				if reach(v, uint64(i)) {
					full[i] = uint64(g.tab[i])
					nz = nz || full[i] != 0
				}
			}
			if nz {
				sum = append(sum, c.Mul(c.mono(g.rest, nil), c.byteFn(c.NewTable(8, full), v)))
			}
		}
		if len(sum) == 0 {
			return true, denoms
		}
		d = c.XorSum(sum)
		if d.IsConst() {
			return d.Val == 0, denoms
		}
	}
	return false, nil
}

// moebius finds g+a/(x+b) that a table is equal to for every reachable x other than b.
func moebius(t, x *Term) (g, a, b byte, ok bool) {
	val := func(i int) byte {
		if i < len(t.Tab.Val) {
			return byte(t.Tab.Val[i])
		}
		return 0
	}
	for bi := 0; bi < 256; bi++ {
		b = byte(bi)
		n := 0
		var x0, x1 int
		ok = true
		for i := 0; i < 256 && ok; i++ {
			if i == bi || !reach(x, uint64(i)) {
				continue
			}
			switch n {
			case 0:
				x0 = i
			case 1:
				x1 = i
				u0, u1 := gfinv[byte(x0)^b], gfinv[byte(x1)^b]
				a = gfmul[val(x0)^val(x1)][gfinv[u0^u1]]
				g = val(x0) ^ gfmul[a][u0]
			default:
				ok = g^gfmul[a][gfinv[byte(i)^b]] == val(i)
			}
			n++
		}
		if ok && n > 2 && a != 0 {
			return g, a, b, true
		}
	}
	return 0, 0, 0, false
}

// rational replaces tables that are, but for one value, quotients.
func (c *Ctx) rational(d *Term) (*Term, []*Term) {
	var denoms []*Term
	rep := map[*Term]*Term{}
	any := false
	var sum []*Term
	n := 0
	c.eachMono(d, func(co byte, m []*Term) {
		n++
		if n > 5000 {
			return
		}
		t := c.Const(8, uint64(co))
		for _, x := range m {
			if x.Op == OpTab {
				r, done := rep[x]
				if !done {
					if g, a, b, ok := moebius(x, x.A[0]); ok {
						dn := c.xor8(x.A[0], c.Const(8, uint64(b)))
						denoms = append(denoms, dn)
						r = c.xor8(c.Const(8, uint64(g)), c.Mul(c.Const(8, uint64(a)), c.Inv(dn)))
					}
					rep[x] = r
				}
				if r != nil {
					any = true
					x = r
				}
			}
			t = c.Mul(t, x)
		}
		sum = append(sum, t)
	})
	if !any || n > 5000 {
		return d, nil
	}
	return c.XorSum(sum), denoms
}

func (c *Ctx) zeroByte(d *Term, depth int) (ok bool, denoms []*Term) {
	if depth == 0 && !d.IsConst() && d.W == 8 && !d.gen {
		if r, dn := c.rational(d); r != d {
			if ok, more := c.zeroByte(r, 1); ok {
				return true, append(dn, more...)
			}
		}
	}
	if depth > 3 {
		return false, nil
	}
	if d.IsConst() {
		return d.Val == 0, nil
	}
	if d.W != 8 || d.gen {
		return false, nil
	}
	if ok, more := c.zeroUni(d); ok {
		return true, more
	}
	// collect inverses and their largest power
	pow := map[*Term]int{}
	n := 0
	c.eachMono(d, func(co byte, m []*Term) {
		n++
		cnt := map[*Term]int{}
		for _, x := range m {
			if x.Op == OpInv {
				cnt[x]++
			}
		}
		for x, k := range cnt {
			if k > pow[x] {
				pow[x] = k
			}
		}
	})
	if len(pow) == 0 || n > 20000 {
		return false, nil
	}
	for x := range pow {
		denoms = append(denoms, x.A[0])
	}
	// product of the denominators not yet cancelled, cached by what remains
	var sum []*Term
	fail := false
	cache := map[string]*Term{}
	c.eachMono(d, func(co byte, m []*Term) {
		if fail {
			return
		}
		cnt := map[*Term]int{}
		var rest []*Term
		for _, x := range m {
			if x.Op == OpInv {
				cnt[x]++
			} else {
				rest = append(rest, x)
			}
		}
		t := c.mono(rest, nil)
		key := ""
		// deterministic order
		for _, dn := range denoms {
			inv := c.mk(OpInv, 8, 0, nil, nil, dn)
			key += string(rune(pow[inv]-cnt[inv]+1)) + ","
		}
		f := cache[key]
		if f == nil {
			f = c.Const(8, 1)
			for _, dn := range denoms {
				inv := c.mk(OpInv, 8, 0, nil, nil, dn)
				for k := cnt[inv]; k < pow[inv]; k++ {
					f = c.Mul(f, dn)
					if linLen(f) > MaxTerms {
						fail = true
						return
					}
				}
			}
			cache[key] = f
		}
		t = c.Mul(t, f)
		sum = append(sum, c.LinApply(MulMat(co), 0, t))
	})
	if fail {
		return false, nil
	}
	s := c.XorSum(sum)
	if s.IsConst() {
		return s.Val == 0, denoms
	}
	if ok, more := c.zeroUni(s); ok {
		return true, append(denoms, more...)
	}
	if ok, more := c.zeroByte(s, depth+1); ok {
		return true, append(denoms, more...)
	}
	return false, nil
}

// ---- substitution ----

// SetSub replaces variables by constants in Subst.
func (c *Ctx) SetSub(v *Term, val uint64) {
	if c.sub == nil {
		c.sub = map[*Term]uint64{}
	}
	c.sub[v] = val
	c.subBloom |= v.Bloom
	c.subMemo = map[*Term]*Term{}
}

func (c *Ctx) ClearSub() { c.sub, c.subBloom, c.subMemo = nil, 0, nil }

func (c *Ctx) Subst(t *Term) *Term {
	if t.Bloom&c.subBloom == 0 {
		return t
	}
	return c.subst(t)
}

func (c *Ctx) subst(t *Term) *Term {
	if t.Bloom&c.subBloom == 0 {
		return t
	}
	if t.Op == OpVar {
		if v, ok := c.sub[t]; ok {
			return c.Const(t.W, v)
		}
		return t
	}
	if r := c.subMemo[t]; r != nil {
		return r
	}
	a := make([]*Term, len(t.A))
	ch := false
	for i, x := range t.A {
		a[i] = c.subst(x)
		ch = ch || a[i] != x
	}
	r := t
	if ch {
		r = c.Rebuild(t, a)
	}
	c.subMemo[t] = r
	return r
}

// Rebuild makes t's operation on other arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpLin:
		var l linAcc
		l.c = byte(t.Val)
		for i, x := range a {
			l.add(x, t.Mats[i])
		}
		return c.fin(&l)
	case OpMono:
		r := c.Const(8, 1)
		for _, x := range a {
			r = c.Mul(r, x)
		}
		return r
	case OpInv:
		return c.Inv(a[0])
	case OpTab:
		return c.byteFn(t.Tab, a[0])
	case OpSel:
		return c.Sel(t.Tab, a[0])
	case OpCat:
		return c.Cat(a)
	case OpExt:
		return c.Byte(a[0], int(t.Val))
	case OpZExt:
		return c.ZExt(a[0], t.W)
	case OpSExt:
		return c.SExt(a[0], t.W)
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpBAnd:
		return c.And(a[0], a[1])
	case OpBOr:
		return c.Or(a[0], a[1])
	case OpBNot:
		return c.Not(a[0])
	}
	return c.Bin(t.Op, a[0], a[1])
}

// ---- bytes that are linear images of one another ----

// imageOf finds m and k with t = m(base)+k, for two sums of the same bytes.
func imageOf(t, base *Term) (m Mat, k byte, ok bool) {
	if t.Op != OpLin || base.Op != OpLin || len(base.A) < len(t.A) {
		return 0, 0, false
	}
	// columns of base's matrices, reduced, with what they are mapped to
	var from, to [8]byte // by highest bit
	i := 0
	for j, a := range base.A {
		var mt Mat
		if i < len(t.A) && t.A[i] == a {
			mt = t.Mats[i]
			i++
		}
		for c := 0; c < 8; c++ {
			x, y := base.Mats[j].Col(c), mt.Col(c)
			for b := 7; b >= 0 && x != 0; b-- {
				if x>>b&1 == 0 {
					continue
				}
				if from[b] == 0 {
					from[b], to[b] = x, y
					x, y = 0, 0
					break
				}
				x ^= from[b]
				y ^= to[b]
			}
			if y != 0 {
				return 0, 0, false
			}
		}
	}
	if i < len(t.A) {
		return 0, 0, false
	}
	// the image of each unit vector
	var cols [8]byte
	for b := 0; b < 8; b++ {
		if from[b] == 0 {
			continue
		}
		// from[b] = 2^b + lower bits
		y := to[b]
		for l := 0; l < b; l++ {
			if from[b]>>l&1 != 0 {
				y ^= cols[l]
			}
		}
		cols[b] = y
	}
	m = MatFromCols(cols)
	return m, byte(t.Val) ^ m.Apply(byte(base.Val)), true
}

// relate replaces leaves that are images of another leaf by operations on it.
func relate(leaves, order []*Term, alias map[*Term]*Term) ([]*Term, []*Term) {
	if len(leaves) < 2 {
		return leaves, order
	}
	n := 0
	for _, l := range leaves {
		if l.Op == OpLin {
			n++
		}
	}
	if n < 2 {
		return leaves, order
	}
	// those that say most come first
	sorted := append([]*Term(nil), leaves...)
	rank := map[*Term]int{}
	for _, l := range leaves {
		if l.Op == OpLin {
			for _, m := range l.Mats {
				rank[l] += m.Rank()
			}
		}
	}
	sort.SliceStable(sorted, func(i, j int) bool { return rank[sorted[i]] > rank[sorted[j]] })
	by := map[*Term]*Term{}
	var kept, os []*Term
	for _, l := range sorted {
		if l.Op != OpLin {
			continue
		}
		for _, b := range kept {
			if m, k, ok := imageOf(l, b); ok {
				d := &Term{Op: OpLin, W: 8, Val: uint64(k), Mats: []Mat{m}, A: []*Term{b}}
				by[l], alias[d] = d, l
				os = append(os, d)
				break
			}
		}
		if by[l] == nil {
			kept = append(kept, l)
		}
	}
	if len(by) == 0 {
		return leaves, order
	}
	var ls []*Term
	for _, l := range leaves {
		if by[l] == nil {
			ls = append(ls, l)
		}
	}
	return ls, append(os, order...)
}
