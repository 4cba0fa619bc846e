package sym

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"time"
)

// The normal forms of bytes rest on rewriting: an expression over one or two bytes, as the code computes it with
// tables and selections, is replaced by its canonical form, and canonical forms are added and multiplied by the laws
// of the field. Certify has an SMT solver decide that each replacement preserves the value, for all bytes.

// Certificate is one replacement that was made.
type Certificate struct {
	Key string
	c   *Ctx
	sh  *shape
}

// Certificates lists the replacements made since the last call.
func (c *Ctx) Certificates() []Certificate {
	var r []Certificate
	for _, sh := range c.Shapes {
		if sh.Used && !sh.Done {
			sh.Done = true
			r = append(r, Certificate{sh.hash(), c, sh})
		}
	}
	return r
}

func (sh *shape) hash() string {
	h := sha256.New()
	w := func(x ...uint64) {
		for _, v := range x {
			binary.Write(h, binary.LittleEndian, v)
		}
	}
	for _, l := range sh.Leaf {
		w(l.Ones, l.Lo, l.Hi)
	}
	for i, t := range sh.P.nodes {
		w(uint64(t.Op), uint64(t.W), t.Val)
		if t.Tab != nil {
			w(uint64(t.Tab.W), uint64(len(t.Tab.Val)))
			w(t.Tab.Val...)
		}
		for j, a := range sh.P.args[i] {
			w(uint64(a))
			if t.Mats != nil {
				w(uint64(t.Mats[j]))
			}
		}
	}
	return string(h.Sum(nil))
}

// Prove asks the solver of another context.
func (x Certificate) Prove(s *Solver) Result {
	c, sh, t0 := s.c, x.sh, time.Now()
	var conds, vars, leaves []*Term
	for i, l := range sh.Leaf {
		for len(c.Vars) <= i {
			c.Var(8, "leaf", 0, 255)
		}
		v := c.Vars[i]
		if l.Lo > 0 {
			conds = append(conds, c.mk(OpBNot, 0, 0, nil, nil, c.mk(OpUlt, 0, 0, nil, nil, v, c.Const(8, l.Lo))))
		}
		if l.Hi < 255 {
			conds = append(conds, c.mk(OpUlt, 0, 0, nil, nil, v, c.Const(8, l.Hi+1)))
		}
		leaves = append(leaves, v)
		vars = append(vars, v)
		if l.Ones != 255 {
			conds = append(conds, c.mk(OpEq, 0, 0, nil, nil, c.mk(OpAnd, 8, 0, nil, nil, v, c.Const(8, ^l.Ones&255)), c.Const(8, 0)))
		}
		if i == 0 && sh.CondA || i == 1 && sh.CondB {
			conds = append(conds, c.mk(OpBNot, 0, 0, nil, nil, c.mk(OpEq, 0, 0, nil, nil, v, c.Const(8, 0))))
		}
	}
	all := append([]*Term(nil), leaves...)
	for i, t := range sh.P.nodes {
		if t.Op == OpConst {
			all = append(all, c.Const(t.W, t.Val))
			continue
		}
		args := make([]*Term, len(sh.P.args[i]))
		for j, a := range sh.P.args[i] {
			args[j] = all[a]
		}
		var tab *Table
		if t.Tab != nil {
			tab = c.NewTable(t.Tab.W, t.Tab.Val)
		}
		if t.Op == OpSel && len(tab.Val) <= 1<<16 && args[0].Hi >= uint64(len(tab.Val)) {
			// that it is within the table is part of the path
			conds = append(conds, c.mk(OpUlt, 0, 0, nil, nil, args[0], c.Const(args[0].W, uint64(len(tab.Val)))))
		}
		all = append(all, c.mk(t.Op, t.W, t.Val, tab, t.Mats, args...))
	}
	raw := all[len(all)-1]
	canon := c.instance(sh, leaves)
	if raw == canon {
		return Unsat
	}
	conds = append(conds, c.mk(OpBNot, 0, 0, nil, nil, c.mk(OpEq, 0, 0, nil, nil, raw, canon)))
	var r Result
	var m map[*Term]uint64
	if len(leaves) == 2 {
		// the solver is much faster when it is given one of the bytes
		for i := uint64(0); i < 256; i++ {
			if !reach(sh.Leaf[1], i) {
				continue
			}
			r, m = s.Check(append(conds[:len(conds):len(conds)], c.mk(OpEq, 0, 0, nil, nil, leaves[1], c.Const(8, i))), vars)
			if r == Unsat && time.Since(t0) > 40*time.Second {
				r = Unknown
			}
			if r != Unsat {
				break
			}
		}
	} else {
		r, m = s.Check(conds, vars)
	}
	if r == Sat && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "refuted: kind", sh.Kind, sh.EA, sh.EB, sh.CondA, sh.CondB, sh.Swap, "raw", raw.str(30), "canonical", canon, "for", m, "leaf ranges", sh.Leaf[0].Lo, sh.Leaf[0].Hi, sh.Leaf[0].Ones)
	}
	return r
}

// Laws has the solver decide the laws by which canonical forms are added, multiplied and compared. It returns the
// number that hold and a description of one that does not.
func Laws(timeout time.Duration) (n int, bad string) {
	c := NewCtx()
	s := NewSolver(c, timeout, "z3-new", "-in")
	defer s.Close()
	mul := func(a, b *Term) *Term { return c.mk(OpMono, 8, 0, nil, nil, a, b) }
	add := func(a, b *Term) *Term { return c.mk(OpLin, 8, 0, nil, []Mat{MatID, MatID}, a, b) }
	lin := func(m Mat, a *Term) *Term { return c.mk(OpLin, 8, 0, nil, []Mat{m}, a) }
	x, y, z := c.Var(8, "x", 0, 255), c.Var(8, "y", 0, 255), c.Var(8, "z", 0, 255)
	law := func(name string, a, b *Term, more ...*Term) {
		if bad != "" {
			return
		}
		conds := append(more, c.mk(OpBNot, 0, 0, nil, nil, c.mk(OpEq, 0, 0, nil, nil, a, b)))
		if r, _ := s.Check(conds, []*Term{x, y, z}); r != Unsat {
			bad = fmt.Sprintf("%s: %v", name, r)
			return
		}
		n++
	}
	law("x*(y+z)=x*y+x*z", mul(x, add(y, z)), add(mul(x, y), mul(x, z)))
	for i := 0; i < 8; i++ {
		b := c.Const(8, 1<<uint(i))
		law("(x+y)*z=x*z+y*z", mul(add(x, y), b), add(mul(x, b), mul(y, b)))
	}
	// with these, it is enough to know the others on a basis
	for i := 0; i < 8; i++ {
		law("x*y=y*x", mul(x, c.Const(8, 1<<uint(i))), mul(c.Const(8, 1<<uint(i)), x))
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			a, b := c.Const(8, 1<<uint(i)), c.Const(8, 1<<uint(j))
			law("x*(y*z)=(x*y)*z", mul(mul(z, a), b), mul(z, c.Const(8, uint64(GFMul(1<<uint(i), 1<<uint(j))))))
		}
	}
	law("x*1=x", mul(x, c.Const(8, 1)), x)
	law("x+x=0", add(x, x), c.Const(8, 0))
	nz := c.mk(OpBNot, 0, 0, nil, nil, c.mk(OpEq, 0, 0, nil, nil, x, c.Const(8, 0)))
	law("x/x=1", mul(x, c.mk(OpInv, 8, 0, nil, nil, x)), c.Const(8, 1), nz)
	// multiples by constants, squares
	for i := 0; i < 256; i++ {
		law("the matrix of a constant", lin(MulMat(byte(i)), x), mul(x, c.Const(8, uint64(i))))
	}
	p := x
	for l := 0; l < 8; l++ {
		if l > 0 {
			p = lin(frob[l-1], x)
			p = mul(p, p)
		}
		law("the matrix of a power", lin(frob[l], x), p)
	}
	return n, bad
}

// Ctx is the context of the terms a solver takes.
func (s *Solver) Ctx() *Ctx { return s.c }
