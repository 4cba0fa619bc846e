package interp

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"verif/engine/sym"
)

// Leak is evidence that what an attacker sees depends on the secret. The bits
// of the view selected by Mask have parity Par in all of A, but not in all of B.
// Or, the view bytes At have the values Val in some of A, but never in B.
type Leak struct {
	A, B []*Tape
	Mask []byte
	Par  int
	At   []int
	Val  []byte
}

type bitrow []uint64

func (r bitrow) get(i int) bool { return r[i/64]>>(uint(i)%64)&1 != 0 }
func (r bitrow) set(i int)      { r[i/64] ^= 1 << (uint(i) % 64) }
func (r bitrow) xor(o bitrow) {
	for i := range r {
		r[i] ^= o[i]
	}
}
func (r bitrow) zero(from, to int) bool {
	for i := from; i < to; i++ {
		if r.get(i) {
			return false
		}
	}
	return true
}

// lin is a byte as a sum of linear images of variables; ok is false if it is something else.
func linForm(t *sym.Term) (vs []*sym.Term, ms []sym.Mat, k byte, ok bool) {
	switch t.Op {
	case sym.OpConst:
		return nil, nil, byte(t.Val), true
	case sym.OpVar:
		return []*sym.Term{t}, []sym.Mat{sym.MatDiag(255)}, 0, true
	case sym.OpLin:
		for _, a := range t.A {
			if a.Op != sym.OpVar {
				return nil, nil, 0, false
			}
		}
		return t.A, t.Mats, byte(t.Val), true
	}
	return nil, nil, 0, false
}

type leakPath struct {
	key  string // what was fixed
	env  map[*sym.Term]uint64
	rows []bitrow // view bits over random columns, with constant last; s substituted
	fp   string
}

// noLeak decides whether the observed bytes have the same distribution for all secrets.
func (m *Machine) noLeak(msg string) {
	c := m.C
	m.Stats.Asserts++
	m.Covers["NoLeak"]++
	// permuted and ranged draws are public, given one value
	for again := true; again; {
		again = false
		for _, v := range m.obs {
			v = m.norm(v)
			if v.T == nil {
				continue
			}
			t := c.Canon(v.T)
			if _, _, _, ok := linForm(t); ok {
				for _, x := range sym.VarsOf(t) {
					if in := info(x); in != nil && in.Draw && (in.Group != nil || x.Lo > 0 || x.Hi < 255) {
						m.concretiseVar(x)
						again = true
					}
				}
				continue
			}
			for _, x := range sym.VarsOf(t) {
				if in := info(x); in != nil && in.Draw && in.Group != nil {
					m.concretiseVar(x)
					again = true
				}
			}
		}
	}
	view := make([]*sym.Term, len(m.obs))
	for i, v := range m.obs {
		view[i] = c.Canon(m.tm(v, 8))
	}
	isS := map[*sym.Term]bool{}
	var addKey func(x *sym.Term)
	addKey = func(x *sym.Term) {
		in := info(x)
		if in == nil || in.AES == nil {
			return
		}
		for _, k := range in.AES.key {
			k = c.Subst(k)
			for _, y := range sym.VarsOf(k) {
				if yi := info(y); yi != nil && yi.Draw && !isS[y] {
					// the key has to stay unknown as well; not the keys of keys
					isS[y] = true
				}
			}
		}
	}
	inPC := map[*sym.Term]bool{}
	pcSecret := false
	for _, q := range m.pc {
		for _, x := range m.varsOf(q) {
			inPC[x] = true
			if in := info(x); in != nil && in.Secret {
				pcSecret = true
			}
		}
	}
	var forms []struct {
		vs []*sym.Term
		ms []sym.Mat
		k  byte
	}
	for _, t := range view {
		vs, ms, k, ok := linForm(t)
		if !ok {
			m.Stats.Unsupp["view is not linear in the secret"]++
			m.end("unsupported", "view is not linear")
		}
		forms = append(forms, struct {
			vs []*sym.Term
			ms []sym.Mat
			k  byte
		}{vs, ms, k})
		for _, x := range vs {
			if in := info(x); in != nil {
				if in.Secret {
					isS[x] = true
				}
				addKey(x)
			}
		}
	}
	// parts that share no variables are independent of one another
	parent := make([]int, len(view))
	for i := range parent {
		parent[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	owner := map[*sym.Term]int{}
	for i := range forms {
		for _, x := range forms[i].vs {
			if j, ok := owner[x]; ok {
				parent[find(i)] = find(j)
			} else {
				owner[x] = i
			}
		}
	}
	comps := map[int][]int{}
	for i := range forms {
		comps[find(i)] = append(comps[find(i)], i)
	}
	var roots []int
	for r := range comps {
		roots = append(roots, r)
	}
	sort.Ints(roots)
	var fp strings.Builder
	for _, root := range roots {
		idx := comps[root]
		var R, S []*sym.Term
		seen := map[*sym.Term]bool{}
		constrained := false
		for _, i := range idx {
			for _, x := range forms[i].vs {
				if seen[x] {
					continue
				}
				seen[x] = true
				in := info(x)
				switch {
				case isS[x] || in == nil || in.Secret:
					S = append(S, x)
				case in.Input, m.knownAES(in):
					// public
				default:
					R = append(R, x)
					if inPC[x] {
						constrained = true
					}
				}
			}
		}
		if len(S) == 0 && !pcSecret {
			continue
		}
		sort.Slice(R, func(i, j int) bool { return R[i].ID < R[j].ID })
		sort.Slice(S, func(i, j int) bool { return S[i].ID < S[j].ID })
		col := map[*sym.Term]int{}
		nR := 0
		for _, x := range R {
			col[x] = 8 * nR
			nR++
		}
		for j, x := range S {
			col[x] = 8 * (nR + j)
		}
		nr, ns := 8*len(R), 8*len(S)
		nrow := 8 * len(idx)
		words := (nr + ns + nrow + 63) / 64
		if nrow*words > 1<<27 {
			m.end("bound", "%d bytes of the view depend on one another", len(idx))
		}
		mat := func(skip func(x *sym.Term) bool) []bitrow {
			rows := make([]bitrow, nrow)
			for a, i := range idx {
				for b := 0; b < 8; b++ {
					row := make(bitrow, words)
					for q, x := range forms[i].vs {
						cl, ok := col[x]
						if !ok || skip != nil && skip(x) {
							continue
						}
						for j := 0; j < 8; j++ {
							if forms[i].ms[q].Col(j)>>uint(b)&1 != 0 {
								row.set(cl + j)
							}
						}
					}
					row.set(nr + ns + 8*a + b)
					rows[8*a+b] = row
				}
			}
			return rows
		}
		elim := func(rows []bitrow) (rank int) {
			for cl := 0; cl < nr && rank < len(rows); cl++ {
				m.limits()
				p := -1
				for i := rank; i < len(rows); i++ {
					if rows[i].get(cl) {
						p = i
						break
					}
				}
				if p < 0 {
					continue
				}
				rows[rank], rows[p] = rows[p], rows[rank]
				for i := range rows {
					if i != rank && rows[i].get(cl) {
						rows[i].xor(rows[rank])
					}
				}
				rank++
			}
			return rank
		}
		rows := mat(nil)
		rank := elim(rows)
		for i := rank; i < len(rows); i++ {
			if rows[i].zero(nr, nr+ns) {
				continue
			}
			// a combination of the view that involves the secret but no randomness
			mask := make([]byte, len(view))
			for a, vi := range idx {
				for b := 0; b < 8; b++ {
					if rows[i].get(nr + ns + 8*a + b) {
						mask[vi] |= 1 << uint(b)
					}
				}
			}
			m.reportLeak(msg, mask, S)
		}
		// the shift of the randomness that makes up for a change of the secret, checked by the solver
		m.certifyMask(view, idx, R, S, rows, rank, nr)
		if constrained {
			// draws that were tested must not make up for changes of the secret
			rows := mat(func(x *sym.Term) bool { return inPC[x] && info(x) != nil && !isS[x] && !info(x).Secret })
			rank := elim(rows)
			leaky := false
			for i := rank; i < len(rows); i++ {
				if !rows[i].zero(nr, nr+ns) {
					leaky = true
				}
			}
			if leaky {
				m.supportLeak(msg, view, idx, R, S, mat(nil), nr)
			}
		}
		if pcSecret {
			fmt.Fprintf(&fp, "%v;", idx)
			for i := rank; i < len(rows); i++ {
				par := 0
				for a, vi := range idx {
					for b := 0; b < 8; b++ {
						if rows[i].get(nr + ns + 8*a + b) {
							fmt.Fprintf(&fp, "%d.%d,", vi, b)
							par ^= int(forms[vi].k>>uint(b)) & 1
						}
					}
				}
				fmt.Fprintf(&fp, "=%d;", par)
			}
		}
	}
	if pcSecret {
		m.compareLeak(msg, fp.String())
	}
	m.Stats.AssertNF++
}

// compareLeak compares paths that the secret selects.
func (m *Machine) compareLeak(msg, fp string) {
	var ks []string
	for v, x := range m.fixed {
		ks = append(ks, fmt.Sprintf("%s=%d", v.Name, x))
	}
	sort.Strings(ks)
	key := fmt.Sprint(m.path0, len(m.obs), strings.Join(ks, " "))
	if m.secretPaths == nil {
		m.secretPaths = map[string]*leakSeen{}
	}
	old := m.secretPaths[key]
	if old == nil {
		m.repair()
		m.secretPaths[key] = &leakSeen{fp: fp, tapes: m.leakTapes(nil, 48)}
		return
	}
	if old.fp == fp {
		return
	}
	// a combination constant in one and not in the other
	for side, f := range []string{old.fp, fp} {
		other := []string{fp, old.fp}[side]
		for _, part := range strings.Split(f, ";") {
			eq := strings.LastIndex(part, "=")
			if eq < 0 || strings.Contains(other, part+";") {
				continue
			}
			mask := make([]byte, len(m.obs))
			for _, w := range strings.Split(part[:eq], ",") {
				var i, b int
				if _, err := fmt.Sscanf(w, "%d.%d", &i, &b); err == nil {
					mask[i] |= 1 << uint(b)
				}
			}
			var par int
			fmt.Sscan(part[eq+1:], &par)
			if !m.repair() {
				return
			}
			now := m.leakTapes(nil, 48)
			l := &Leak{A: old.tapes, B: now, Mask: mask, Par: par}
			if side == 1 {
				l.A, l.B = now, old.tapes
			}
			m.emitLeak(msg+": the secret decides what is observed", l)
		}
	}
}

type leakSeen struct {
	fp    string
	tapes []*Tape
}

// leakTapes makes tapes that differ in the draws that are not fixed.
func (m *Machine) leakTapes(keep map[*sym.Term]uint64, n int) []*Tape {
	var r []*Tape
	base := map[*sym.Term]uint64{}
	for v, x := range m.Env {
		if in := info(v); in != nil && (in.Input || inPCVar(m, v) || m.knownAES(in)) {
			base[v] = x
		}
	}
	for v, x := range keep {
		base[v] = x
	}
	se, sm, so := m.Env, m.memo, m.envOK
	for i := 0; i < n; i++ {
		m.randomEnv()
		for v, x := range base {
			m.Env[v] = x
		}
		r = append(r, m.MakeTape("", nil))
	}
	m.Env, m.memo, m.envOK = se, sm, so
	return r
}

func inPCVar(m *Machine, v *sym.Term) bool {
	for _, q := range m.pc {
		for _, x := range m.varsOf(q) {
			if x == v {
				return true
			}
		}
	}
	return false
}

// reportLeak: the parity of the masked view bits is a function of the secret alone.
func (m *Machine) reportLeak(msg string, mask []byte, S []*sym.Term) {
	c := m.C
	par := func() int {
		p := 0
		for i, k := range mask {
			if k != 0 {
				p ^= bits.OnesCount8(k&byte(m.EnvVal(m.obsT(i)))) & 1
			}
		}
		return p
	}
	if !m.repair() {
		return
	}
	_ = c
	fix := func() map[*sym.Term]uint64 {
		r := map[*sym.Term]uint64{}
		for _, x := range S {
			r[x] = m.EnvVal(x)
		}
		for v, x := range m.Env {
			if in := info(v); in != nil && (in.Input || m.knownAES(in)) {
				r[v] = x
			}
		}
		return r
	}
	for i := 0; i < 40; i++ {
		p1 := par()
		k1 := fix()
		ta := m.leakTapes(k1, 24)
		// other secrets
		for j := 0; j < 20; j++ {
			k2 := map[*sym.Term]uint64{}
			for v, x := range k1 {
				k2[v] = x
			}
			for _, x := range S {
				k2[x] = uint64(m.mrng.Intn(256))
			}
			se, sm := m.Env, m.memo
			m.randomEnv()
			for v, x := range k2 {
				m.Env[v] = x
			}
			ok := true
			for _, q := range m.pc {
				ok = ok && m.holds(q)
			}
			p2 := par()
			m.Env, m.memo = se, sm
			if ok && p2 != p1 {
				m.emitLeak(msg, &Leak{A: ta, B: m.leakTapes(k2, 24), Mask: mask, Par: p1})
			}
		}
	}
}

func (m *Machine) obsT(i int) *sym.Term { return m.tm(m.obs[i], 8) }

func (m *Machine) emitLeak(msg string, l *Leak) {
	v := &Violation{Msg: msg, Kind: "leak", Events: m.events, M: m, Leak: l}
	if m.Violation != nil {
		m.Violation(v)
	}
	m.end("violation", "%s", msg)
}

// certifyMask asks the solver to confirm, for small parts, that for all secrets s and s' and randomness r
// there is randomness r', given by the solution of the linear equations, with view(s,r) = view(s',r').
func (m *Machine) certifyMask(view []*sym.Term, idx []int, R, S []*sym.Term, rows []bitrow, rank, nr int) {
	c := m.C
	if len(R)+len(S) > 8 || len(S) == 0 {
		m.Stats.LeakLinear++
		return
	}
	// r' = r + W(s+s'): for the pivot columns, read off the reduced rows
	w := map[*sym.Term]map[*sym.Term][8]byte{}
	for i := 0; i < rank; i++ {
		p := 0
		for !rows[i].get(p) {
			p++
		}
		x := R[p/8]
		for j, s := range S {
			for b := 0; b < 8; b++ {
				if rows[i].get(nr + 8*j + b) {
					if w[x] == nil {
						w[x] = map[*sym.Term][8]byte{}
					}
					cols := w[x][s]
					cols[b] |= 1 << uint(p%8)
					w[x][s] = cols
				}
			}
		}
	}
	sub := map[*sym.Term]*sym.Term{}
	prime := map[*sym.Term]*sym.Term{}
	for _, s := range S {
		p := m.atom("alt."+s.Name, 8, 0, 255, func() *VarInfo { return &VarInfo{Input: true} })
		prime[s] = p
		sub[s] = p
	}
	for _, x := range R {
		t := x
		for _, s := range S {
			if cols, ok := w[x][s]; ok {
				t = c.Bin(sym.OpXor, t, c.LinApply(sym.MatFromCols(cols), 0, c.Bin(sym.OpXor, s, prime[s])))
			}
		}
		sub[x] = t
	}
	key := ""
	var bad *sym.Term = c.False
	for _, i := range idx {
		o := m.replace(view[i], sub)
		d := c.Bin(sym.OpXor, view[i], o)
		bad = c.Or(bad, c.Not(c.Eq(d, c.Const(8, 0))))
		key += shapeOf(view[i], R, S) + ";"
	}
	if m.certified == nil {
		m.certified = map[string]bool{}
	}
	if m.certified[key] {
		return
	}
	if !bad.IsFalse() {
		if r, _ := m.S.Check([]*sym.Term{bad}, nil); r != sym.Unsat {
			m.Stats.Unsupp["secrecy certificate not confirmed"]++
			return
		}
	} else {
		// the engine's normal form is zero: ask the solver about the unsimplified equation
		if !m.rawCertify(view, idx, sub) {
			m.Stats.Unsupp["secrecy certificate not confirmed"]++
			return
		}
	}
	m.certified[key] = true
	m.Stats.LeakCert++
}

func shapeOf(t *sym.Term, R, S []*sym.Term) string {
	vs, ms, k, _ := linForm(t)
	var b strings.Builder
	fmt.Fprintf(&b, "%d", k)
	for i, v := range vs {
		for j, x := range R {
			if x == v {
				fmt.Fprintf(&b, " r%d:%x", j, uint64(ms[i]))
			}
		}
		for j, x := range S {
			if x == v {
				fmt.Fprintf(&b, " s%d:%x", j, uint64(ms[i]))
			}
		}
	}
	return b.String()
}

// rawCertify states view(s,r) != view(s',r') with fresh names for the sums, so that nothing is simplified away.
func (m *Machine) rawCertify(view []*sym.Term, idx []int, sub map[*sym.Term]*sym.Term) bool {
	c := m.C
	fresh := map[*sym.Term]*sym.Term{}
	var conds []*sym.Term
	var order []*sym.Term
	for v := range sub {
		order = append(order, v)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, v := range order {
		if sub[v] == v {
			continue
		}
		f := m.atom("new."+v.Name, 8, 0, 255, func() *VarInfo { return &VarInfo{Input: true} })
		fresh[v] = f
		conds = append(conds, c.Eq(f, sub[v]))
	}
	for _, i := range idx {
		q := append(conds[:len(conds):len(conds)], c.Not(c.Eq(view[i], m.replace(view[i], fresh))))
		if r, _ := m.S.Check(q, sym.VarsOf(q...)); r != sym.Unsat {
			return false
		}
	}
	return true
}

func (m *Machine) replace(t *sym.Term, sub map[*sym.Term]*sym.Term) *sym.Term {
	memo := map[*sym.Term]*sym.Term{}
	var rec func(t *sym.Term) *sym.Term
	rec = func(t *sym.Term) *sym.Term {
		if s, ok := sub[t]; ok {
			return s
		}
		if len(t.A) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		a := make([]*sym.Term, len(t.A))
		ch := false
		for i, x := range t.A {
			a[i] = rec(x)
			ch = ch || a[i] != x
		}
		r := t
		if ch {
			r = m.C.Rebuild(t, a)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// supportLeak: draws were accepted or rejected by their values. A view possible under one secret may be impossible under another.
func (m *Machine) supportLeak(msg string, view []*sym.Term, idx []int, R, S []*sym.Term, rows []bitrow, nr int) {
	c := m.C
	if len(idx) > 2 || len(R) > 4 {
		m.Stats.Unsupp["tested draws in a large view"]++
		return
	}
	// r' = r + W(s+s') as above, over all draws
	rank := 0
	{
		ns := 8 * len(S)
		_ = ns
		for cl := 0; cl < nr && rank < len(rows); cl++ {
			p := -1
			for i := rank; i < len(rows); i++ {
				if rows[i].get(cl) {
					p = i
					break
				}
			}
			if p < 0 {
				continue
			}
			rows[rank], rows[p] = rows[p], rows[rank]
			for i := range rows {
				if i != rank && rows[i].get(cl) {
					rows[i].xor(rows[rank])
				}
			}
			rank++
		}
	}
	if rank < nr {
		m.Stats.Unsupp["tested draws in a large view"]++
		return
	}
	sub := map[*sym.Term]*sym.Term{}
	prime := map[*sym.Term]*sym.Term{}
	for _, s := range S {
		prime[s] = m.atom("alt."+s.Name, 8, 0, 255, func() *VarInfo { return &VarInfo{Input: true} })
	}
	for i := 0; i < rank; i++ {
		p := 0
		for !rows[i].get(p) {
			p++
		}
		x := R[p/8]
		if sub[x] == nil {
			sub[x] = x
		}
		for j, s := range S {
			var cols [8]byte
			for b := 0; b < 8; b++ {
				if rows[i].get(nr + 8*j + b) {
					cols[b] |= 1 << uint(p%8)
				}
			}
			sub[x] = c.Bin(sym.OpXor, sub[x], c.LinApply(sym.MatFromCols(cols), 0, c.Bin(sym.OpXor, s, prime[s])))
		}
	}
	rv := map[*sym.Term]bool{}
	for _, x := range R {
		rv[x] = true
	}
	var pcs []*sym.Term
	other := c.False
	for _, q := range m.sliceVars(R) {
		pcs = append(pcs, q)
		other = c.Or(other, c.Not(m.replace(q, sub)))
	}
	conds := append(pcs, other)
	r, env := m.S.Check(conds, sym.VarsOf(conds...))
	if r != sym.Sat {
		if r == sym.Unknown {
			m.Stats.AssertUnknown++
		}
		return
	}
	if !m.repair() {
		return
	}
	k1, k2 := map[*sym.Term]uint64{}, map[*sym.Term]uint64{}
	m.overlay(env)
	for _, s := range S {
		k1[s] = m.EnvVal(s)
		k2[s] = m.EnvVal(prime[s])
	}
	l := &Leak{}
	for _, i := range idx {
		l.At = append(l.At, i)
		l.Val = append(l.Val, byte(m.EnvVal(view[i])))
	}
	mk := func(k map[*sym.Term]uint64) []*Tape {
		m.overlay(k)
		var ts []*Tape
		for i := 0; i < 6000; i++ {
			t := m.MakeTape("", nil)
			// fresh draws, except those that have one value on this path
			di := 0
			for _, e := range m.events {
				if e.Kind == "in" {
					continue
				}
				if e.Kind == "draw" {
					for j, x := range e.T {
						if _, ok := m.fixed[x]; !ok {
							t.Draws[di].V[j] = uint64(m.mrng.Intn(256))
						}
					}
				}
				di++
			}
			t.Seed = int64(m.mrng.Int31())
			ts = append(ts, t)
		}
		return ts
	}
	l.A = mk(k1)
	l.B = mk(k2)
	m.emitLeak(msg+": some views are impossible for some secrets", l)
}

// knownAES says whether a variable comes from the block cipher under a key that nothing drawn is part of.
func (m *Machine) knownAES(in *VarInfo) bool {
	if in.AES == nil {
		return false
	}
	for _, k := range in.AES.key {
		for _, y := range sym.VarsOf(m.C.Subst(k)) {
			if yi := info(y); yi != nil && yi.Draw && !m.knownAES(yi) {
				return false
			}
		}
	}
	return true
}
