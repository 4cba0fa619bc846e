package sym

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver is one solver process fed with definitions of terms as they are needed.
type Solver struct {
	Cmd     []string
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	funs    map[string]bool
	Timeout time.Duration
	Stat    struct {
		Queries, Sat, Unsat, Unknown, Restarts int
		Time                                   time.Duration
	}
	Log   io.Writer
	buf   strings.Builder
	lines chan string
	dead  bool
}

func NewSolver(c *Ctx, timeout time.Duration, cmd ...string) *Solver {
	return &Solver{Cmd: cmd, c: c, Timeout: timeout}
}

func (s *Solver) start() error {
	s.cmd = exec.CommandContext(context.Background(), s.Cmd[0], s.Cmd[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.lines = make(chan string, 1024)
	r := bufio.NewReaderSize(out, 1<<16)
	lines := s.lines
	go func() {
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				lines <- strings.TrimRight(l, "\r\n")
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	s.defined = map[int32]bool{}
	s.funs = map[string]bool{}
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.Cmd[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.Timeout.Milliseconds()))
	}
	s.send("(set-logic QF_BV)\n")
	return nil
}

// SetTimeout changes the time a query may take.
func (s *Solver) SetTimeout(d time.Duration) {
	s.Timeout = d
	if s.cmd != nil && strings.Contains(s.Cmd[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", d.Milliseconds()))
	}
}

func (s *Solver) send(x string) {
	if s.Log != nil {
		io.WriteString(s.Log, x)
	}
	if s.dead {
		return
	}
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bv(w uint8, v uint64) string {
	return fmt.Sprintf("#x%0*x", w/4, v)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func name(t *Term) string {
	if t.Op == OpConst {
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		return bv(t.W, t.Val)
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (s *Solver) fun(name string, def func() string) string {
	if !s.funs[name] {
		s.funs[name] = true
		s.buf.WriteString(def())
	}
	return name
}

func (s *Solver) matFun(m Mat) string {
	return s.fun(fmt.Sprintf("m%x", uint64(m)), func() string {
		rows := m.Rows()
		var b strings.Builder
		fmt.Fprintf(&b, "(define-fun m%x ((x (_ BitVec 8))) (_ BitVec 8) (concat", uint64(m))
		for i := 7; i >= 0; i-- {
			n := 0
			var parts []string
			for j := 0; j < 8; j++ {
				if rows[i]>>uint(j)&1 != 0 {
					n++
					parts = append(parts, fmt.Sprintf("((_ extract %d %d) x)", j, j))
				}
			}
			switch n {
			case 0:
				b.WriteString(" #b0")
			case 1:
				b.WriteString(" " + parts[0])
			default:
				b.WriteString(" (bvxor " + strings.Join(parts, " ") + ")")
			}
		}
		b.WriteString("))\n")
		return b.String()
	})
}

func (s *Solver) mulFun() string {
	return s.fun("gfmul", func() string {
		var b strings.Builder
		var pre []string
		for j := 0; j < 8; j++ {
			pre = append(pre, s.matFun(MulMat(1<<uint(j))))
		}
		b.WriteString("(define-fun gfmul ((a (_ BitVec 8)) (b (_ BitVec 8))) (_ BitVec 8) (bvxor")
		for j := 0; j < 8; j++ {
			fmt.Fprintf(&b, " (ite (= ((_ extract %d %d) b) #b1) (%s a) #x00)", j, j, pre[j])
		}
		b.WriteString("))\n")
		return b.String()
	})
}

// tabFun defines a table as a balanced selection tree over the index bits.
func (s *Solver) tabFun(w uint8, vals []uint64, iw uint8, nm string) string {
	return s.fun(nm, func() string {
		nb := 0
		for 1<<uint(nb) < len(vals) {
			nb++
		}
		if nb > int(iw) {
			nb = int(iw)
		}
		var rec func(bit int, base int) string
		rec = func(bit, base int) string {
			same := true
			at := func(i int) uint64 {
				if i < len(vals) {
					return vals[i]
				}
				return 0
			}
			for i := base; i < base+1<<uint(bit); i++ {
				if at(i) != at(base) {
					same = false
					break
				}
			}
			if same {
				return bv(w, at(base))
			}
			return fmt.Sprintf("(ite (= ((_ extract %d %d) i) #b1) %s %s)", bit-1, bit-1, rec(bit-1, base+1<<uint(bit-1)), rec(bit-1, base))
		}
		return fmt.Sprintf("(define-fun %s ((i (_ BitVec %d))) (_ BitVec %d) %s)\n", nm, iw, w, rec(nb, 0))
	})
}

var bvop = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv",
	OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt", OpBAnd: "and", OpBOr: "or", OpBNot: "not", OpIte: "ite"}

// addTab recognises tables that add a constant, on what can be looked up.
func addTab(t *Term) (uint64, bool) {
	if t.W != 8 || t.A[0].W != 8 {
		return 0, false
	}
	k, have := uint64(0), false
	for i, v := range t.Tab.Val {
		if i > 255 || !reach(t.A[0], uint64(i)) {
			continue
		}
		d := (v - uint64(i)) & 0xff
		if have && d != k {
			return 0, false
		}
		k, have = d, true
	}
	return k, have && len(t.Tab.Val) >= 256
}

func (s *Solver) define(t *Term) {
	if t.Op == OpConst || s.defined[t.ID] {
		return
	}
	// iterative post-order, terms can be deep
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.Op == OpConst || s.defined[f.t.ID] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			f.i++
			st = append(st, fr{f.t.A[f.i-1], 0})
			continue
		}
		s.emit(f.t)
		s.defined[f.t.ID] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit(t *Term) {
	if t.Op == OpVar {
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", name(t), sortOf(t.W))
		return
	}
	var e string
	switch t.Op {
	case OpLin:
		parts := []string{}
		if t.Val != 0 {
			parts = append(parts, bv(8, t.Val))
		}
		for i, a := range t.A {
			if t.Mats[i] == MatID {
				parts = append(parts, name(a))
			} else {
				parts = append(parts, "("+s.matFun(t.Mats[i])+" "+name(a)+")")
			}
		}
		e = parts[0]
		if len(parts) > 1 {
			e = "(bvxor " + strings.Join(parts, " ") + ")"
		}
	case OpMono:
		s.mulFun()
		e = name(t.A[0])
		for _, a := range t.A[1:] {
			e = "(gfmul " + e + " " + name(a) + ")"
		}
	case OpInv:
		v := make([]uint64, 256)
		for i := range v {
			v[i] = uint64(gfinv[i])
		}
		e = "(" + s.tabFun(8, v, 8, "gfinv") + " " + name(t.A[0]) + ")"
	case OpTab, OpSel:
		if k, ok := addTab(t); ok {
			e = "(bvadd " + name(t.A[0]) + " " + bv(8, k) + ")"
			break
		}
		e = "(" + s.tabFun(t.Tab.W, t.Tab.Val, t.A[0].W, fmt.Sprintf("tab%d_%d", t.Tab.ID, t.A[0].W)) + " " + name(t.A[0]) + ")"
	case OpCat:
		e = "(concat"
		for i := len(t.A) - 1; i >= 0; i-- {
			e += " " + name(t.A[i])
		}
		e += ")"
	case OpExt:
		e = fmt.Sprintf("((_ extract %d %d) %s)", 8*t.Val+7, 8*t.Val, name(t.A[0]))
	case OpZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, name(t.A[0]))
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, name(t.A[0]))
	default:
		op, ok := bvop[t.Op]
		if !ok {
			panic("smt op")
		}
		if t.Op == OpURem || t.Op == OpUDiv {
			// no wider than the operands can be
			k := bits.Len64(t.A[0].Hi | t.A[1].Hi | 1)
			if k < int(t.W) {
				e = fmt.Sprintf("((_ zero_extend %d) (%s ((_ extract %d 0) %s) ((_ extract %d 0) %s)))", int(t.W)-k, op, k-1, name(t.A[0]), k-1, name(t.A[1]))
				if t.A[1].Lo == 0 && t.Op == OpUDiv {
					e = fmt.Sprintf("(%s %s %s)", op, name(t.A[0]), name(t.A[1]))
				}
				break
			}
		}
		e = "(" + op
		for _, a := range t.A {
			e += " " + name(a)
		}
		e += ")"
	}
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", name(t), sortOf(t.W), e)
}

// VarsOf lists the variables of terms, in order of creation.
func VarsOf(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t.Op == OpConst || seen[t] {
			continue
		}
		seen[t] = true
		if t.Op == OpVar {
			r = append(r, t)
		}
		st = append(st, t.A...)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Check decides the conjunction of conds. On Sat it returns values of vars.
func (s *Solver) Check(conds []*Term, vars []*Term) (Result, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.Stat.Time += time.Since(t0) }()
	s.Stat.Queries++
	r, m := s.check(conds, vars)
	switch r {
	case Sat:
		s.Stat.Sat++
	case Unsat:
		s.Stat.Unsat++
	default:
		s.Stat.Unknown++
	}
	return r, m
}

func (s *Solver) check(conds []*Term, vars []*Term) (Result, map[*Term]uint64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.buf.Reset()
	for _, t := range conds {
		s.define(t)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.buf.WriteString("(push 1)\n")
	for _, v := range vars {
		// ranges of variables
		if v.W > 0 {
			if v.Lo > 0 {
				fmt.Fprintf(&s.buf, "(assert (bvuge %s %s))\n", name(v), bv(v.W, v.Lo))
			}
			if v.Hi < Mask(v.W) {
				fmt.Fprintf(&s.buf, "(assert (bvule %s %s))\n", name(v), bv(v.W, v.Hi))
			}
		}
	}
	for _, t := range conds {
		fmt.Fprintf(&s.buf, "(assert %s)\n", name(t))
	}
	s.buf.WriteString("(check-sat)\n(echo \"#\")\n")
	if d := os.Getenv("VERIF_QLOG"); d != "" {
		t0 := time.Now()
		txt := s.buf.String()
		defer func() {
			f, _ := os.OpenFile(d, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			fmt.Fprintf(f, "%s; %v\n", txt, time.Since(t0))
			f.Close()
		}()
	}
	s.send(s.buf.String())
	ans := s.read()
	res := Unknown
	for _, l := range ans {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.Close()
			s.Stat.Restarts++
			return Unknown, nil
		}
	}
	if ans == nil {
		s.Close()
		s.Stat.Restarts++
		return Unknown, nil
	}
	var model map[*Term]uint64
	if res == Sat && len(vars) > 0 {
		s.buf.Reset()
		s.buf.WriteString("(get-value (")
		for _, v := range vars {
			s.buf.WriteString(name(v))
			s.buf.WriteByte(' ')
		}
		s.buf.WriteString("))\n(echo \"#\")\n")
		s.send(s.buf.String())
		out := strings.Join(s.read(), " ")
		model = map[*Term]uint64{}
		byName := map[string]*Term{}
		for _, v := range vars {
			byName[name(v)] = v
		}
		f := strings.FieldsFunc(out, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
		for i := 0; i+1 < len(f); i += 2 {
			v := byName[f[i]]
			if v == nil {
				continue
			}
			x := f[i+1]
			switch {
			case x == "true":
				model[v] = 1
			case x == "false":
				model[v] = 0
			case strings.HasPrefix(x, "#x"):
				model[v], _ = strconv.ParseUint(x[2:], 16, 64)
			case strings.HasPrefix(x, "#b"):
				model[v], _ = strconv.ParseUint(x[2:], 2, 64)
			}
		}
	} else if res == Sat {
		model = map[*Term]uint64{}
	}
	s.send("(pop 1)\n")
	return res, model
}

func (s *Solver) read() []string {
	var r []string
	r = []string{}
	tm := time.NewTimer(s.Timeout*3/2 + 3*time.Second)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				return nil
			}
			if l == "#" || l == "\"#\"" {
				return r
			}
			r = append(r, l)
		case <-tm.C:
			return nil
		}
	}
}
