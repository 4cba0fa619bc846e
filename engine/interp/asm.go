package interp

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

// AsmFunc is a function written in assembly.
type AsmFunc struct {
	name   string
	file   string
	arch   string
	ins    []asmIns
	labels map[string]int
	intr   *Intrinsic
}

type asmIns struct {
	op   string
	args []string
	line int
}

var (
	reText   = regexp.MustCompile(`^TEXT\s+(\S*?)·(\w+)(<>)?\(SB\)`)
	reLabel  = regexp.MustCompile(`^([A-Za-z_]\w*):`)
	reDefine = regexp.MustCompile(`^#define\s+(\w+)(\(([^)]*)\))?\s*(.*)$`)
	reWord   = regexp.MustCompile(`\w+`)
)

type macro struct {
	params []string
	body   string
	fn     bool
}

func splitArgs(s string) []string {
	var r []string
	depth, at := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				r = append(r, strings.TrimSpace(s[at:i]))
				at = i + 1
			}
		}
	}
	if x := strings.TrimSpace(s[at:]); x != "" {
		r = append(r, x)
	}
	return r
}

func stripComment(l string) string {
	if i := strings.Index(l, "//"); i >= 0 {
		l = l[:i]
	}
	for {
		i := strings.Index(l, "/*")
		if i < 0 {
			return l
		}
		j := strings.Index(l[i:], "*/")
		if j < 0 {
			return l[:i]
		}
		l = l[:i] + " " + l[i+j+2:]
	}
}

func parseAsm(file, arch string, fm map[string]*AsmFunc) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	macros := map[string]*macro{}
	raw := strings.Split(string(b), "\n")
	var cur *AsmFunc
	var emit func(l string, line, depth int) error
	emit = func(l string, line, depth int) error {
		l = strings.TrimSpace(l)
		if l == "" {
			return nil
		}
		if depth > 20 {
			return fmt.Errorf("%s:%d: macro recursion", file, line)
		}
		if m := reText.FindStringSubmatch(l); m != nil {
			cur = &AsmFunc{name: m[2], file: file, arch: arch, labels: map[string]int{}}
			fm[m[2]] = cur
			return nil
		}
		if strings.HasPrefix(l, "DATA") || strings.HasPrefix(l, "GLOBL") || strings.HasPrefix(l, "#") {
			return nil
		}
		if m := reLabel.FindStringSubmatch(l); m != nil {
			if cur != nil {
				cur.labels[m[1]] = len(cur.ins)
			}
			return emit(l[len(m[0]):], line, depth)
		}
		// macros
		w := reWord.FindString(l)
		if mc := macros[w]; mc != nil && strings.HasPrefix(l, w) {
			rest := strings.TrimSpace(l[len(w):])
			body := mc.body
			if mc.fn {
				if !strings.HasPrefix(rest, "(") {
					return fmt.Errorf("%s:%d: macro %s", file, line, w)
				}
				end := strings.LastIndex(rest, ")")
				args := splitArgs(rest[1:end])
				if len(args) != len(mc.params) {
					return fmt.Errorf("%s:%d: macro %s has %d arguments", file, line, w, len(args))
				}
				sub := map[string]string{}
				for i, p := range mc.params {
					sub[p] = args[i]
				}
				body = reWord.ReplaceAllStringFunc(body, func(x string) string {
					if y, ok := sub[x]; ok {
						return y
					}
					return x
				})
				rest = rest[end+1:]
			} else {
				body += " " + rest
				rest = ""
			}
			for _, x := range strings.Split(body, "\n") {
				for _, y := range strings.Split(x, ";") {
					if err := emit(y, line, depth+1); err != nil {
						return err
					}
				}
			}
			return emit(strings.TrimPrefix(strings.TrimSpace(rest), ";"), line, depth)
		}
		if cur == nil {
			return nil
		}
		// simple macros in operands
		l = reWord.ReplaceAllStringFunc(l, func(x string) string {
			if mc := macros[x]; mc != nil && !mc.fn {
				return mc.body
			}
			return x
		})
		f := strings.Fields(l)
		op := f[0]
		cur.ins = append(cur.ins, asmIns{op: op, args: splitArgs(strings.TrimSpace(l[len(op):])), line: line})
		return nil
	}
	for i := 0; i < len(raw); i++ {
		l := stripComment(raw[i])
		line := i + 1
		if strings.HasPrefix(strings.TrimSpace(l), "#define") {
			l = strings.TrimSpace(l)
			for strings.HasSuffix(l, "\\") && i+1 < len(raw) {
				i++
				// "\ // comment" lines are continued too
				nl := raw[i]
				cont := strings.HasSuffix(strings.TrimSpace(nl), "\\") || strings.HasPrefix(strings.TrimSpace(nl), "\\")
				nl = strings.TrimSpace(stripComment(nl))
				nl = strings.TrimPrefix(nl, "\\")
				nl = strings.TrimSuffix(strings.TrimSpace(nl), "\\")
				l = strings.TrimSuffix(l, "\\") + "\n" + nl
				if cont {
					l += "\\"
				}
			}
			l = strings.TrimSuffix(l, "\\")
			first, rest, _ := strings.Cut(l, "\n")
			m := reDefine.FindStringSubmatch(strings.TrimSpace(strings.TrimSuffix(first, "\\")))
			if m == nil {
				return fmt.Errorf("%s:%d: #define", file, line)
			}
			mc := &macro{body: m[4] + "\n" + rest, fn: m[2] != ""}
			if !mc.fn {
				mc.body = strings.TrimSpace(mc.body)
			}
			for _, p := range strings.Split(m[3], ",") {
				mc.params = append(mc.params, strings.TrimSpace(p))
			}
			macros[m[1]] = mc
			continue
		}
		for _, x := range strings.Split(l, ";") {
			if err := emit(x, line, 0); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- execution ----

type areg struct {
	b    [32]Val
	prov [2]*SPtr // where each half was loaded from, as a whole
}

type asmArea struct {
	obj    *Object
	lo, hi int
	dims   []Dim
	name   string
}

type asmRun struct {
	m     *Machine
	g     *Gor
	f     *AsmFunc
	gpr   map[string]Val
	vec   map[int]*areg
	frame map[int]Val // words by offset
	fw    map[int]int // width in bytes
	areas []asmArea
	// flags: result of a-b, or of an operation if b is nil
	fa, fb *sym.Term
	flog   bool
	why    string
}

func (m *Machine) asmIntrinsic(a *AsmFunc, fn *ssa.Function) *Intrinsic {
	if a.intr != nil {
		return a.intr
	}
	in := &Intrinsic{name: "asm " + a.name}
	sig := fn.Signature
	in.f = func(m *Machine, g *Gor, args []Val, ci *callInfo) (Val, bool) {
		m.Funcs[pkgOf(fn)+"."+a.name+" ("+a.file[strings.LastIndex(a.file, "/")+1:]+")"] = true
		r := &asmRun{m: m, g: g, f: a, gpr: map[string]Val{}, vec: map[int]*areg{}, frame: map[int]Val{}, fw: map[int]int{}}
		off := 0
		put := func(v Val, w int) {
			off = (off + w - 1) &^ (w - 1)
			r.frame[off], r.fw[off] = v, w
			off += w
		}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			l := m.LS.of(t)
			switch l.kind {
			case kSlice:
				s := sl(args[i])
				var p Val
				if s.Obj != nil {
					p = s.at(0)
					r.areas = append(r.areas, asmArea{s.Obj, s.Off, s.Off + s.Len, s.Dims, sig.Params().At(i).Name()})
				}
				put(p, 8)
				put(Val{N: uint64(s.Len)}, 8)
				put(Val{N: uint64(s.Cap)}, 8)
			case kInt:
				put(args[i], int(l.w)/8)
			case kBool:
				put(args[i], 1)
			case kPtr:
				put(args[i], 8)
				if o, ok := args[i].P.(*Object); ok {
					n := m.LS.of(deref(t)).n
					r.areas = append(r.areas, asmArea{o, int(args[i].N), int(args[i].N) + n, nil, sig.Params().At(i).Name()})
				} else if q, ok := args[i].P.(*SPtr); ok {
					n := m.LS.of(deref(t)).n
					r.areas = append(r.areas, asmArea{q.Obj, q.Off, q.Off + n, q.Dims, sig.Params().At(i).Name()})
				}
			default:
				m.unsupported("assembly argument of type %s", t)
			}
		}
		off = (off + 7) &^ 7
		r.exec()
		res := sig.Results()
		var vs []Val
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			l := m.LS.of(t)
			if l.kind != kInt && l.kind != kBool {
				m.unsupported("assembly result of type %s", t)
			}
			w := max(int(l.w)/8, 1)
			off = (off + w - 1) &^ (w - 1)
			vs = append(vs, r.frame[off])
			off += w
		}
		switch len(vs) {
		case 0:
			return Val{}, true
		case 1:
			return vs[0], true
		}
		return Val{P: vs}, true
	}
	a.intr = in
	return in
}

func (r *asmRun) bad(in *asmIns) {
	r.m.unsupported("assembly %s %s (%s:%d)", in.op, strings.Join(in.args, ", "), r.f.name, in.line)
}

func (r *asmRun) exec() {
	m := r.m
	pc := 0
	for n := 0; ; n++ {
		if pc >= len(r.f.ins) {
			m.unsupported("assembly %s runs off its end", r.f.name)
		}
		m.steps++
		if n&0xffff == 0xffff {
			m.limits()
		}
		in := &r.f.ins[pc]
		pc++
		if in.op == "RET" {
			return
		}
		var jump string
		if r.f.arch == "arm64" {
			jump = r.arm(in)
		} else {
			jump = r.amd(in)
		}
		if jump != "" {
			t, ok := r.f.labels[jump]
			if !ok {
				r.bad(in)
			}
			pc = t
		}
	}
}

// memory

func (r *asmRun) check(p Val, n int, write bool, in *asmIns) {
	m := r.m
	what := "read"
	if write {
		what = "write"
	}
	if p.P == nil {
		m.pathViolation("oob", fmt.Sprintf("assembly %s (line %d): %s through a nil or integer pointer", r.f.name, in.line, what))
	}
	var obj *Object
	var off int
	var nd int
	switch q := p.P.(type) {
	case *Object:
		obj, off = q, int(int64(p.N))
	case *SPtr:
		obj, off, nd = q.Obj, q.Off, len(q.Dims)
	default:
		m.unsupported("assembly pointer %T", p.P)
	}
	for _, a := range r.areas {
		if a.obj == obj && len(a.dims) == nd && off >= a.lo && off+n <= a.hi {
			return
		}
	}
	m.pathViolation("oob", fmt.Sprintf("assembly %s (line %d): %s of %d bytes at offset %d outside the vectors", r.f.name, in.line, what, n, off))
}

func (r *asmRun) load(p Val, n int, in *asmIns) []Val {
	r.check(p, n, false, in)
	r.m.iteW = 8
	return r.m.loadCells(p, n)
}

func (r *asmRun) store(p Val, vs []Val, in *asmIns) {
	r.check(p, len(vs), true, in)
	r.m.iteW = 8
	r.m.storeCells(p, vs)
}

func (r *asmRun) align(p Val, in *asmIns) {
	off := 0
	switch q := p.P.(type) {
	case *Object:
		off = int(int64(p.N))
	case *SPtr:
		off = q.Off
	}
	if off%16 != 0 {
		r.m.pathViolation("oob", fmt.Sprintf("assembly %s (line %d): aligned access at offset %d", r.f.name, in.line, off))
	}
}

// padd adds to a word that may be a pointer.
func (r *asmRun) padd(a, b Val, sub bool) Val {
	m := r.m
	if a.P != nil && b.P == nil {
		d := int(int64(m.concInt(b, 64, "pointer offset")))
		if sub {
			d = -d
		}
		return m.ptrAdd(a, d)
	}
	if b.P != nil && a.P == nil && !sub {
		return r.padd(b, a, false)
	}
	if a.P != nil && b.P != nil && sub {
		o1, ok1 := a.P.(*Object)
		o2, ok2 := b.P.(*Object)
		if ok1 && ok2 && o1 == o2 {
			return Val{N: a.N - b.N}
		}
		m.unsupported("difference of pointers in assembly")
	}
	op := sym.OpAdd
	if sub {
		op = sym.OpSub
	}
	return tv(m.C.Bin(op, m.tm(a, 64), m.tm(b, 64)))
}

// low bits of a pointer: objects are aligned
func (r *asmRun) word(v Val) *sym.Term {
	switch q := v.P.(type) {
	case *Object:
		return r.m.C.Const(64, 1<<44+uint64(q.ID)<<24+v.N)
	case *SPtr:
		return r.m.C.Const(64, 1<<44+uint64(q.Obj.ID)<<24+uint64(q.Off))
	}
	return r.m.tm(v, 64)
}

func (r *asmRun) v(i int) *areg {
	if r.vec[i] == nil {
		r.vec[i] = &areg{}
	}
	return r.vec[i]
}

func (r *asmRun) imm(s string) (uint64, bool) {
	s = strings.TrimPrefix(s, "$")
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	neg2 := strings.HasPrefix(s, "~")
	s = strings.TrimPrefix(s, "~")
	x, err := strconv.ParseUint(s, 0, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		x = -x
	}
	if neg2 {
		x = ^x
	}
	return x, true
}

// cond evaluates a condition code over the flags.
func (r *asmRun) cond(cc string, in *asmIns) bool {
	m, c := r.m, r.m.C
	if r.fa == nil {
		r.bad(in)
	}
	a, b := r.fa, r.fb
	if b == nil {
		b = c.Const(64, 0)
	}
	res := a
	if r.fb != nil {
		res = c.Bin(sym.OpSub, a, b)
	}
	var t *sym.Term
	switch cc {
	case "EQ":
		t = c.Eq(a, b)
	case "NE":
		t = c.Not(c.Eq(a, b))
	case "LT":
		t = c.Slt(a, b)
	case "GE":
		t = c.Not(c.Slt(a, b))
	case "LE":
		t = c.Not(c.Slt(b, a))
	case "GT":
		t = c.Slt(b, a)
	case "LO", "CS":
		t = c.Ult(a, b)
	case "HS", "CC":
		t = c.Not(c.Ult(a, b))
	case "LS":
		t = c.Not(c.Ult(b, a))
	case "HI":
		t = c.Ult(b, a)
	case "MI":
		t = c.Slt(res, c.Const(64, 0))
	case "PL":
		t = c.Not(c.Slt(res, c.Const(64, 0)))
	default:
		r.bad(in)
	}
	if r.flog && (cc == "LO" || cc == "CS" || cc == "HS" || cc == "CC" || cc == "LS" || cc == "HI") {
		r.bad(in)
	}
	return m.decide(t)
}

var x86cc = map[string]string{"JEQ": "EQ", "JZ": "EQ", "JE": "EQ", "JNE": "NE", "JNZ": "NE", "JLT": "LT", "JL": "LT", "JGE": "GE", "JLE": "LE",
	"JGT": "GT", "JG": "GT", "JCS": "LO", "JB": "LO", "JLO": "LO", "JCC": "HS", "JAE": "HS", "JHS": "HS", "JLS": "LS", "JBE": "LS", "JHI": "HI", "JA": "HI",
	"JMI": "MI", "JS": "MI", "JPL": "PL", "JNS": "PL"}

var reMem = regexp.MustCompile(`^(-?(?:0x[0-9a-fA-F]+|\d+))?\((\w+)\)(?:\((\w+)\*(\d+)\))?$`)
var reFP = regexp.MustCompile(`^(?:(\w+)\+)?(-?\d+)\(FP\)$`)
var reXY = regexp.MustCompile(`^[XYZ](\d+)$`)

func (r *asmRun) addr(s string, in *asmIns) Val {
	g := reMem.FindStringSubmatch(s)
	if g == nil {
		r.bad(in)
	}
	base, ok := r.gpr[g[2]]
	if !ok {
		r.bad(in)
	}
	if g[3] != "" {
		k, _ := strconv.Atoi(g[4])
		base = r.padd(base, tv(r.m.C.Bin(sym.OpMul, r.m.tm(r.gpr[g[3]], 64), r.m.C.Const(64, uint64(k)))), false)
	}
	if g[1] != "" {
		d, _ := strconv.ParseInt(g[1], 0, 64)
		base = r.padd(base, Val{N: uint64(d)}, false)
	}
	return base
}

func (r *asmRun) isMem(s string) bool { return reMem.MatchString(s) }

func (r *asmRun) rd(s string, in *asmIns) Val {
	if s == "ZR" && r.f.arch == "arm64" {
		return Val{}
	}
	if strings.HasPrefix(s, "$") {
		x, ok := r.imm(s)
		if !ok {
			r.bad(in)
		}
		return Val{N: x}
	}
	if g := reFP.FindStringSubmatch(s); g != nil {
		o, _ := strconv.Atoi(g[2])
		v, ok := r.frame[o]
		if !ok {
			r.bad(in)
		}
		if w := r.fw[o]; w < 8 {
			return tv(r.m.C.ZExt(r.m.tm(v, uint8(8*w)), 64))
		}
		return v
	}
	v, ok := r.gpr[s]
	if !ok {
		r.bad(in)
	}
	return v
}

func (r *asmRun) cat(b []Val) *sym.Term {
	t := make([]*sym.Term, len(b))
	for i := range b {
		t[i] = r.m.tm(b[i], 8)
	}
	return r.m.C.Cat(t)
}

func (r *asmRun) split(t *sym.Term, n int) []Val {
	o := make([]Val, n)
	for i := range o {
		o[i] = tv(r.m.C.Byte(t, i))
	}
	return o
}

// shuffle is a byte look-up within 16 bytes.
func (r *asmRun) lookup16(tab []Val, prov *SPtr, idx *sym.Term) Val {
	c := r.m.C
	i := c.Bin(sym.OpAnd, idx, c.Const(8, 15))
	if i.IsConst() {
		return tab[i.Val]
	}
	if prov != nil {
		r.m.iteW = 8
		q := &SPtr{prov.Obj, prov.Off, append(append([]Dim(nil), prov.Dims...), Dim{c.ZExt(i, 64), 1, 16})}
		return r.m.loadSym(q, 0)
	}
	vals := make([]uint64, 16)
	all := true
	for k := range vals {
		if tab[k].T != nil {
			all = false
			break
		}
		vals[k] = tab[k].N
	}
	if all {
		return tv(c.Sel(c.NewTable(8, vals), c.ZExt(i, 64)))
	}
	v := r.m.tm(tab[15], 8)
	for k := 14; k >= 0; k-- {
		if uint64(k)&^i.Ones != 0 {
			continue
		}
		v = c.Ite(c.Eq(i, c.Const(8, uint64(k))), r.m.tm(tab[k], 8), v)
	}
	return tv(v)
}

func (r *asmRun) pshufb(tab []Val, prov *SPtr, idx Val) Val {
	c := r.m.C
	t := r.m.tm(idx, 8)
	v := r.lookup16(tab, prov, t)
	if t.Ones&0x80 != 0 {
		z := c.Ult(t, c.Const(8, 0x80))
		return tv(c.Ite(z, r.m.tm(v, 8), c.Const(8, 0)))
	}
	return v
}

// vtbl of one register: zero if the index is above 15
func (r *asmRun) vtbl(tab []Val, prov *SPtr, idx Val) Val {
	c := r.m.C
	t := r.m.tm(idx, 8)
	v := r.lookup16(tab, prov, t)
	if t.Ones&0xf0 != 0 {
		return tv(c.Ite(c.Ult(t, c.Const(8, 16)), r.m.tm(v, 8), c.Const(8, 0)))
	}
	return v
}

func (r *asmRun) provOf(p Val) *SPtr {
	switch q := p.P.(type) {
	case *Object:
		return &SPtr{Obj: q, Off: int(p.N)}
	case *SPtr:
		return q
	}
	return nil
}

// tableProv is provenance worth keeping: constant memory
func (r *asmRun) constProv(p *SPtr) *SPtr {
	if p == nil || len(p.Dims) == 0 {
		return nil
	}
	return p
}

func (r *asmRun) vop(op string, a, b Val) Val {
	c := r.m.C
	x, y := r.m.tm(a, 8), r.m.tm(b, 8)
	switch op {
	case "XOR":
		return r.m.xorV(a, b)
	case "AND":
		return tv(c.Bin(sym.OpAnd, x, y))
	case "OR":
		return tv(c.Bin(sym.OpOr, x, y))
	case "ANDN": // ^x & y
		return tv(c.Bin(sym.OpAnd, c.NotBits(x), y))
	}
	return Val{}
}

func (r *asmRun) amd(in *asmIns) string {
	m, c := r.m, r.m.C
	a := in.args
	need := func(n int) {
		if len(a) < n {
			r.bad(in)
		}
	}
	op := in.op
	xy := func(s string) int {
		g := reXY.FindStringSubmatch(s)
		if g == nil || s[0] == 'Z' {
			return -1
		}
		n, _ := strconv.Atoi(g[1])
		return n
	}
	width := func() int {
		for _, s := range a {
			if s[0] == 'Y' && xy(s) >= 0 {
				return 32
			}
		}
		return 16
	}
	switch op {
	case "NOP", "PCALIGN", "PREFETCHT0", "PREFETCHNTA", "PREFETCHT1", "NO_LOCAL_POINTERS", "FUNCDATA", "PCDATA", "SFENCE", "MFENCE", "LFENCE":
		return ""
	case "VZEROUPPER":
		for i := 0; i < 16; i++ {
			v := r.v(i)
			for j := 16; j < 32; j++ {
				v.b[j] = Val{}
			}
			v.prov[1] = nil
		}
		return ""
	case "JMP":
		need(1)
		return a[0]
	}
	if cc, ok := x86cc[op]; ok {
		need(1)
		if r.cond(cc, in) {
			return a[0]
		}
		return ""
	}
	setg := func(d string, v Val) {
		if g := reFP.FindStringSubmatch(d); g != nil {
			o, _ := strconv.Atoi(g[2])
			r.frame[o] = v
			r.fw[o] = 8
			return
		}
		if xy(d) >= 0 || r.isMem(d) {
			r.bad(in)
		}
		r.gpr[d] = v
	}
	vsrc := func(s string, w int) ([]Val, []*SPtr) {
		if i := xy(s); i >= 0 {
			v := r.v(i)
			return append([]Val(nil), v.b[:w]...), []*SPtr{v.prov[0], v.prov[1]}
		}
		if r.isMem(s) {
			p := r.addr(s, in)
			b := r.load(p, w, in)
			var pr []*SPtr
			q := r.constProv(r.provOf(p))
			pr = append(pr, q)
			if q != nil && w == 32 {
				pr = append(pr, &SPtr{q.Obj, q.Off + 16, q.Dims})
			} else {
				pr = append(pr, nil)
			}
			return b, pr
		}
		r.bad(in)
		return nil, nil
	}
	vdst := func(s string, b []Val, pr []*SPtr, vex bool) {
		if i := xy(s); i >= 0 {
			v := r.v(i)
			copy(v.b[:], b)
			v.prov[0] = nil
			if len(pr) > 0 {
				v.prov[0] = pr[0]
			}
			if len(b) == 32 {
				v.prov[1] = nil
				if len(pr) > 1 {
					v.prov[1] = pr[1]
				}
			} else if vex {
				for j := 16; j < 32; j++ {
					v.b[j] = Val{}
				}
				v.prov[1] = nil
			}
			return
		}
		if r.isMem(s) {
			r.store(r.addr(s, in), b, in)
			return
		}
		r.bad(in)
	}
	switch op {
	case "MOVQ":
		need(2)
		i, j := xy(a[0]), xy(a[1])
		switch {
		case j >= 0 && i < 0:
			v := r.v(j)
			var t *sym.Term
			if r.isMem(a[0]) {
				b := r.load(r.addr(a[0], in), 8, in)
				copy(v.b[:], b)
				for k := 8; k < 16; k++ {
					v.b[k] = Val{}
				}
			} else {
				x := r.rd(a[0], in)
				if x.P != nil {
					r.bad(in)
				}
				t = m.tm(x, 64)
				copy(v.b[:], r.split(t, 8))
				for k := 8; k < 16; k++ {
					v.b[k] = Val{}
				}
			}
			v.prov[0] = nil
		case i >= 0 && j < 0:
			t := r.cat(r.v(i).b[:8])
			if r.isMem(a[1]) {
				r.store(r.addr(a[1], in), r.v(i).b[:8], in)
			} else {
				setg(a[1], tv(t))
			}
		case i >= 0:
			r.bad(in)
		case r.isMem(a[0]):
			setg(a[1], tv(r.cat(r.load(r.addr(a[0], in), 8, in))))
		case r.isMem(a[1]):
			x := r.rd(a[0], in)
			if x.P != nil {
				r.bad(in)
			}
			r.store(r.addr(a[1], in), r.split(m.tm(x, 64), 8), in)
		default:
			setg(a[1], r.rd(a[0], in))
		}
		return ""
	case "MOVB", "MOVBLZX", "MOVBQZX", "MOVBLSX":
		need(2)
		switch {
		case r.isMem(a[0]):
			setg(a[1], tv(c.ZExt(m.tm(r.load(r.addr(a[0], in), 1, in)[0], 8), 64)))
		case r.isMem(a[1]):
			r.store(r.addr(a[1], in), []Val{tv(c.Byte(m.tm(r.rd(a[0], in), 64), 0))}, in)
		default:
			x := r.rd(a[0], in)
			if op == "MOVB" && !reFP.MatchString(a[0]) {
				r.bad(in)
			}
			setg(a[1], tv(c.Bin(sym.OpAnd, m.tm(x, 64), c.Const(64, 255))))
		}
		return ""
	case "LEAQ":
		need(2)
		setg(a[1], r.addr(a[0], in))
		return ""
	case "ADDQ", "SUBQ", "ANDQ", "ORQ", "XORQ", "SHRQ", "SHLQ", "IMULQ", "XORL":
		need(2)
		x := r.rd(a[0], in)
		if op == "XORL" || op == "XORQ" {
			if a[0] == a[1] {
				r.fa, r.fb, r.flog = c.Const(64, 0), nil, true
				setg(a[1], Val{})
				return ""
			}
			if op == "XORL" {
				r.bad(in)
			}
		}
		y := r.rd(a[1], in)
		switch op {
		case "ADDQ":
			v := r.padd(y, x, false)
			setg(a[1], v)
			r.fa, r.fb, r.flog = r.word(v), nil, true
			return ""
		case "SUBQ":
			r.fa, r.fb, r.flog = r.word(y), r.word(x), false
			setg(a[1], r.padd(y, x, true))
			return ""
		}
		so := map[string]sym.Op{"ANDQ": sym.OpAnd, "ORQ": sym.OpOr, "XORQ": sym.OpXor, "SHRQ": sym.OpLShr, "SHLQ": sym.OpShl, "IMULQ": sym.OpMul}[op]
		xt := m.tm(x, 64)
		if op == "SHRQ" || op == "SHLQ" {
			xt = c.Bin(sym.OpAnd, xt, c.Const(64, 63))
		}
		t := c.Bin(so, r.word(y), xt)
		setg(a[1], tv(t))
		r.fa, r.fb, r.flog = t, nil, true
		return ""
	case "INCQ", "DECQ":
		need(1)
		v := r.padd(r.rd(a[0], in), Val{N: 1}, op == "DECQ")
		setg(a[0], v)
		r.fa, r.fb, r.flog = r.word(v), nil, true
		return ""
	case "CMPQ":
		need(2)
		r.fa, r.fb, r.flog = r.word(r.rd(a[0], in)), r.word(r.rd(a[1], in)), false
		return ""
	case "TESTQ":
		need(2)
		r.fa, r.fb, r.flog = c.Bin(sym.OpAnd, r.word(r.rd(a[0], in)), r.word(r.rd(a[1], in))), nil, true
		return ""
	case "MOVOU", "MOVUPS", "MOVOA", "MOVAPS", "MOVO":
		need(2)
		if op == "MOVOA" || op == "MOVAPS" || op == "MOVO" {
			for _, s := range a {
				if r.isMem(s) {
					r.align(r.addr(s, in), in)
				}
			}
		}
		b, pr := vsrc(a[0], 16)
		vdst(a[1], b, pr, false)
		return ""
	case "VMOVDQU", "VMOVDQA", "VMOVUPS":
		need(2)
		w := width()
		b, pr := vsrc(a[0], w)
		vdst(a[1], b, pr, true)
		return ""
	case "PXOR", "PAND", "POR", "PANDN":
		need(2)
		x, _ := vsrc(a[0], 16)
		y, _ := vsrc(a[1], 16)
		if op == "PXOR" && a[0] == a[1] {
			vdst(a[1], make([]Val, 16), nil, false)
			return ""
		}
		o := map[string]string{"PXOR": "XOR", "PAND": "AND", "POR": "OR", "PANDN": "ANDN"}[op]
		for k := range y {
			if o == "ANDN" {
				y[k] = r.vop(o, y[k], x[k])
			} else {
				y[k] = r.vop(o, x[k], y[k])
			}
		}
		vdst(a[1], y, nil, false)
		return ""
	case "VPXOR", "VPAND", "VPOR":
		need(3)
		w := width()
		x, _ := vsrc(a[0], w)
		y, _ := vsrc(a[1], w)
		o := op[2:]
		for k := range y {
			y[k] = r.vop(o, x[k], y[k])
		}
		vdst(a[2], y, nil, true)
		return ""
	case "PSHUFB":
		need(2)
		idx, _ := vsrc(a[0], 16)
		tab, pr := vsrc(a[1], 16)
		out := make([]Val, 16)
		for k := range out {
			out[k] = r.pshufb(tab, pr[0], idx[k])
		}
		vdst(a[1], out, nil, false)
		return ""
	case "VPSHUFB":
		need(3)
		w := width()
		idx, _ := vsrc(a[0], w)
		tab, pr := vsrc(a[1], w)
		out := make([]Val, w)
		for k := range out {
			h := k / 16
			out[k] = r.pshufb(tab[16*h:16*h+16], pr[h], idx[k])
		}
		vdst(a[2], out, nil, true)
		return ""
	case "PSRLQ", "PSLLQ", "PSRLW", "PSLLW", "VPSRLQ", "VPSLLQ", "VPSRLW", "VPSLLW":
		vex := op[0] == 'V'
		w := 16
		si, di := 1, 1
		if vex {
			need(3)
			w = width()
			di = 2
		}
		need(2)
		sh, ok := r.imm(a[0])
		if !ok {
			r.bad(in)
		}
		x, _ := vsrc(a[si], w)
		o := strings.TrimPrefix(op, "V")
		lane := 8
		if o[4] == 'W' {
			lane = 2
		}
		so := sym.OpLShr
		if strings.HasPrefix(o, "PSLL") {
			so = sym.OpShl
		}
		out := make([]Val, 0, w)
		for k := 0; k < w; k += lane {
			t := r.cat(x[k : k+lane])
			if sh >= uint64(8*lane) {
				t = c.Const(t.W, 0)
			} else {
				t = c.Bin(so, t, c.Const(t.W, sh))
			}
			out = append(out, r.split(t, lane)...)
		}
		vdst(a[di], out, nil, vex)
		return ""
	case "VINSERTI128", "VINSERTF128":
		need(4)
		k, ok := r.imm(a[0])
		if !ok {
			r.bad(in)
		}
		x, px := vsrc(a[1], 16)
		y, py := vsrc(a[2], 32)
		k &= 1
		copy(y[16*k:], x)
		py[k] = px[0]
		vdst(a[3], y, py, true)
		return ""
	case "VBROADCASTI128", "VBROADCASTF128":
		need(2)
		if !r.isMem(a[0]) {
			r.bad(in)
		}
		x, px := vsrc(a[0], 16)
		vdst(a[1], append(x, x...), []*SPtr{px[0], px[0]}, true)
		return ""
	case "VPBROADCASTB":
		need(2)
		var x Val
		if r.isMem(a[0]) {
			x = r.load(r.addr(a[0], in), 1, in)[0]
		} else if i := xy(a[0]); i >= 0 {
			x = r.v(i).b[0]
		} else {
			r.bad(in)
		}
		out := make([]Val, width())
		for k := range out {
			out[k] = x
		}
		vdst(a[1], out, nil, true)
		return ""
	}
	r.bad(in)
	return ""
}

// ---- arm64 ----

var reV = regexp.MustCompile(`^V(\d+)\.(\w+)(?:\[(\d+)\])?$`)

func (r *asmRun) armV(s string, in *asmIns) (int, string, int) {
	g := reV.FindStringSubmatch(s)
	if g == nil {
		r.bad(in)
	}
	n, _ := strconv.Atoi(g[1])
	ix := -1
	if g[3] != "" {
		ix, _ = strconv.Atoi(g[3])
	}
	return n, g[2], ix
}

func (r *asmRun) armList(s string, in *asmIns) []int {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
		r.bad(in)
	}
	var l []int
	for _, x := range splitArgs(s[1 : len(s)-1]) {
		n, arr, _ := r.armV(x, in)
		if arr != "B16" && arr != "D2" && arr != "S4" && arr != "H8" {
			r.bad(in)
		}
		l = append(l, n)
	}
	return l
}

func (r *asmRun) arm(in *asmIns) string {
	m, c := r.m, r.m.C
	a := in.args
	op := in.op
	need := func(n int) {
		if len(a) < n {
			r.bad(in)
		}
	}
	switch op {
	case "NOP", "PCALIGN", "PRFM", "HINT", "NO_LOCAL_POINTERS":
		return ""
	case "B", "JMP":
		need(1)
		return a[0]
	case "CBZ", "CBNZ":
		need(2)
		t := c.Eq(r.word(r.rd(a[0], in)), c.Const(64, 0))
		if m.decide(t) == (op == "CBZ") {
			return a[1]
		}
		return ""
	case "BMI", "BPL", "BEQ", "BNE", "BLT", "BGE", "BLE", "BGT", "BLO", "BHS", "BLS", "BHI", "BCC", "BCS":
		need(1)
		if r.cond(op[1:], in) {
			return a[0]
		}
		return ""
	case "MOVD":
		need(2)
		switch {
		case r.isMem(a[0]):
			r.gpr[a[1]] = tv(r.cat(r.load(r.addr(a[0], in), 8, in)))
		case r.isMem(a[1]):
			r.store(r.addr(a[1], in), r.split(m.tm(r.rd(a[0], in), 64), 8), in)
		default:
			r.gpr[a[1]] = r.rd(a[0], in)
		}
		return ""
	case "MOVBU":
		need(2)
		if r.isMem(a[0]) {
			r.gpr[a[1]] = tv(c.ZExt(m.tm(r.load(r.addr(a[0], in), 1, in)[0], 8), 64))
		} else {
			r.gpr[a[1]] = tv(c.Bin(sym.OpAnd, m.tm(r.rd(a[0], in), 64), c.Const(64, 255)))
		}
		return ""
	case "MOVB":
		need(2)
		if !r.isMem(a[1]) {
			r.bad(in)
		}
		r.store(r.addr(a[1], in), []Val{tv(c.Byte(m.tm(r.rd(a[0], in), 64), 0))}, in)
		return ""
	case "CMP":
		need(2)
		r.fa, r.fb, r.flog = r.word(r.rd(a[1], in)), r.word(r.rd(a[0], in)), false
		return ""
	case "ADD", "ADDS", "SUB", "SUBS", "AND", "ANDS", "ORR", "EOR", "LSR", "LSL", "MUL":
		need(2)
		x := r.rd(a[0], in)
		y := r.rd(a[1], in)
		d := a[len(a)-1]
		switch op {
		case "ADD", "ADDS":
			v := r.padd(y, x, false)
			r.gpr[d] = v
			if op == "ADDS" {
				r.fa, r.fb, r.flog = r.word(v), nil, true
			}
		case "SUB", "SUBS":
			if op == "SUBS" {
				r.fa, r.fb, r.flog = r.word(y), r.word(x), false
			}
			r.gpr[d] = r.padd(y, x, true)
		default:
			so := map[string]sym.Op{"AND": sym.OpAnd, "ANDS": sym.OpAnd, "ORR": sym.OpOr, "EOR": sym.OpXor, "LSR": sym.OpLShr, "LSL": sym.OpShl, "MUL": sym.OpMul}[op]
			t := c.Bin(so, r.word(y), m.tm(x, 64))
			r.gpr[d] = tv(t)
			if op == "ANDS" {
				r.fa, r.fb, r.flog = t, nil, true
			}
		}
		return ""
	case "VLD1", "VLD1.P", "VST1", "VST1.P":
		need(2)
		ld := op[:4] == "VLD1"
		mem, list := a[0], a[1]
		if !ld {
			mem, list = a[1], a[0]
		}
		post := strings.HasSuffix(op, ".P")
		g := reMem.FindStringSubmatch(mem)
		if g == nil {
			r.bad(in)
		}
		p, ok := r.gpr[g[2]]
		if !ok {
			r.bad(in)
		}
		regs := r.armList(list, in)
		if post {
			d, err := strconv.Atoi(g[1])
			if err != nil || d != 16*len(regs) {
				r.bad(in)
			}
		} else if g[1] != "" {
			r.bad(in)
		}
		for _, v := range regs {
			if ld {
				b := r.load(p, 16, in)
				copy(r.v(v).b[:], b)
				r.v(v).prov[0] = r.constProv(r.provOf(p))
			} else {
				r.store(p, append([]Val(nil), r.v(v).b[:16]...), in)
			}
			p = m.ptrAdd(p, 16)
		}
		if post {
			r.gpr[g[2]] = p
		}
		return ""
	case "VUSHR", "VSHL":
		need(3)
		sh, ok := r.imm(a[0])
		x, arr, _ := r.armV(a[1], in)
		d, arr2, _ := r.armV(a[2], in)
		lane := map[string]int{"B16": 1, "H8": 2, "S4": 4, "D2": 8}[arr]
		if !ok || arr != arr2 || lane == 0 || sh > uint64(8*lane) {
			r.bad(in)
		}
		so := sym.OpLShr
		if op == "VSHL" {
			so = sym.OpShl
		}
		var out []Val
		src := r.v(x).b
		for k := 0; k < 16; k += lane {
			t := r.cat(src[k : k+lane])
			if sh == uint64(8*lane) {
				t = c.Const(t.W, 0)
			} else {
				t = c.Bin(so, t, c.Const(t.W, sh))
			}
			out = append(out, r.split(t, lane)...)
		}
		copy(r.v(d).b[:], out)
		r.v(d).prov[0] = nil
		return ""
	case "VAND", "VEOR", "VORR":
		need(3)
		x, _, _ := r.armV(a[0], in)
		y, _, _ := r.armV(a[1], in)
		d, arr, _ := r.armV(a[2], in)
		if arr != "B16" {
			r.bad(in)
		}
		o := map[string]string{"VAND": "AND", "VEOR": "XOR", "VORR": "OR"}[op]
		var out [16]Val
		for k := range out {
			out[k] = r.vop(o, r.v(x).b[k], r.v(y).b[k])
		}
		copy(r.v(d).b[:], out[:])
		r.v(d).prov[0] = nil
		return ""
	case "VTBL":
		need(3)
		x, arr, _ := r.armV(a[0], in)
		tl := r.armList(a[1], in)
		d, arr2, _ := r.armV(a[2], in)
		if len(tl) != 1 || arr != "B16" || arr2 != "B16" {
			r.bad(in)
		}
		var out [16]Val
		t := r.v(tl[0])
		for k := range out {
			out[k] = r.vtbl(t.b[:16], t.prov[0], r.v(x).b[k])
		}
		copy(r.v(d).b[:], out[:])
		r.v(d).prov[0] = nil
		return ""
	case "VMOV":
		need(2)
		if !strings.HasPrefix(a[0], "V") {
			d, arr, ix := r.armV(a[1], in)
			if arr != "B" || ix < 0 {
				r.bad(in)
			}
			r.v(d).b[ix] = tv(c.Byte(m.tm(r.rd(a[0], in), 64), 0))
			r.v(d).prov[0] = nil
			return ""
		}
		if strings.HasPrefix(a[1], "V") {
			x, ar, _ := r.armV(a[0], in)
			d, ar2, _ := r.armV(a[1], in)
			if ar != "B16" || ar2 != "B16" {
				r.bad(in)
			}
			r.v(d).b = r.v(x).b
			r.v(d).prov = r.v(x).prov
			return ""
		}
		r.bad(in)
	case "VDUP":
		need(2)
		x, arr, ix := r.armV(a[0], in)
		d, arr2, _ := r.armV(a[1], in)
		if arr != "B" || ix < 0 || arr2 != "B16" {
			r.bad(in)
		}
		v := r.v(x).b[ix]
		for k := 0; k < 16; k++ {
			r.v(d).b[k] = v
		}
		r.v(d).prov[0] = nil
		return ""
	case "VMOVI":
		need(2)
		x, ok := r.imm(a[0])
		d, arr, _ := r.armV(a[1], in)
		if !ok || arr != "B16" {
			r.bad(in)
		}
		for k := 0; k < 16; k++ {
			r.v(d).b[k] = Val{N: x & 255}
		}
		r.v(d).prov[0] = nil
		return ""
	}
	r.bad(in)
	return ""
}

var _ = types.Typ
