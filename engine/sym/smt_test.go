package sym

import (
	"testing"
	"time"
)

func TestSMT(t *testing.T) {
	c := NewCtx()
	s := NewSolver(c, 20*time.Second, "z3-new", "-in")
	defer s.Close()
	a, b := c.Var(8, "a", 0, 255), c.Var(8, "b", 0, 255)
	r, m := s.Check([]*Term{c.Eq(c.Bin(OpAdd, a, b), c.Const(8, 7)), c.Ult(a, b)}, []*Term{a, b})
	if r != Sat || byte(m[a]+m[b]) != 7 {
		t.Fatal(r, m)
	}
	// gfmul by bit loop is recognised
	x, y := a, b
	acc := c.Const(8, 0)
	for i := 0; i < 8; i++ {
		bit := c.Eq(c.Bin(OpAnd, y, c.Const(8, 1)), c.Const(8, 1))
		acc = c.Ite(bit, c.Bin(OpXor, acc, x), acc)
		hi := c.Not(c.Eq(c.Bin(OpAnd, x, c.Const(8, 0x80)), c.Const(8, 0)))
		x = c.Bin(OpShl, x, c.Const(8, 1))
		x = c.Ite(hi, c.Bin(OpXor, x, c.Const(8, 0x1d)), x)
		y = c.Bin(OpLShr, y, c.Const(8, 1))
	}
	p := c.Canon(acc)
	if p != c.Mul(a, b) {
		t.Fatal(p)
	}
	// k=2 interpolation with symbolic points
	sec, co := c.Var(8, "s", 0, 255), c.Var(8, "c", 0, 255)
	y1 := c.Bin(OpXor, sec, c.Mul(co, a))
	y2 := c.Bin(OpXor, sec, c.Mul(co, b))
	d := c.Inv(c.Bin(OpXor, a, b))
	res := c.Bin(OpXor, c.Mul(y1, c.Mul(b, d)), c.Mul(y2, c.Mul(a, d)))
	ok, den := c.ZeroByte(c.Bin(OpXor, res, sec))
	if !ok {
		t.Fatal(den)
	}
}
