package interp

import (
	"bytes"
	"crypto/aes"
	"fmt"
	"strings"

	"verif/engine/sym"
)

// aesApp is one application of the block cipher, to symbolic bytes.
type aesApp struct {
	key, in, out []*sym.Term
}

func ids(ts ...[]*sym.Term) string {
	var b strings.Builder
	for _, l := range ts {
		for _, t := range l {
			fmt.Fprintf(&b, "%d,", t.ID)
		}
		b.WriteByte('|')
	}
	return b.String()
}

func (m *Machine) terms8(vs []Val) []*sym.Term {
	r := make([]*sym.Term, len(vs))
	for i := range vs {
		r[i] = m.tm(vs[i], 8)
	}
	return r
}

func constBytes(ts []*sym.Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.IsConst() {
			return nil, false
		}
		b[i] = byte(t.Val)
	}
	return b, true
}

func byteVals(b []byte) []Val {
	r := make([]Val, len(b))
	for i := range b {
		r[i] = Val{N: uint64(b[i])}
	}
	return r
}

func vals(ts []*sym.Term) []Val {
	r := make([]Val, len(ts))
	for i, t := range ts {
		r[i] = tv(t)
	}
	return r
}

func (m *Machine) substAll(ts []*sym.Term) []*sym.Term {
	r := make([]*sym.Term, len(ts))
	for i, t := range ts {
		r[i] = m.C.Subst(t)
	}
	return r
}

// encrypt is the block cipher: the real one on known values, otherwise an unknown function.
func (m *Machine) encrypt(key, in []Val) []Val {
	k, x := m.terms8(key), m.terms8(in)
	if a := m.findApp(k, x, nil); a != nil {
		return vals(m.substAll(a.out))
	}
	kb, ok1 := constBytes(k)
	xb, ok2 := constBytes(x)
	if ok1 && ok2 {
		if m.tape != nil {
			for _, e := range m.tape.AES {
				if bytes.Equal(e.Key, kb) && bytes.Equal(e.In, xb) {
					return byteVals(e.Out)
				}
			}
		}
		c, err := aes.NewCipher(kb)
		if err != nil {
			m.unsupported("key of %d bytes", len(kb))
		}
		out := make([]byte, 16)
		c.Encrypt(out, xb)
		r := make([]Val, 16)
		for i := range r {
			r[i] = Val{N: uint64(out[i])}
		}
		return r
	}
	id := ids(k, x)
	a := m.aesByKey[id]
	if a == nil {
		a = &aesApp{key: k, in: x}
		n := len(m.aesByKey)
		for i := 0; i < 16; i++ {
			i := i
			a.out = append(a.out, m.atom(fmt.Sprintf("e%d.%d", n, i), 8, 0, 255, func() *VarInfo { return &VarInfo{Draw: true, AES: a, Byte: i} }))
		}
		m.aesByKey[id] = a
	}
	m.pathAES[a] = true
	m.pathApps = append(m.pathApps, a)
	return vals(m.substAll(a.out))
}

func sameTerms(a, b []*sym.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Machine) findApp(k, in, out []*sym.Term) *aesApp {
	for _, a := range m.pathApps {
		if in != nil && a.in[15] != in[15] && m.C.Subst(a.in[15]) != in[15] {
			continue
		}
		if !sameTerms(m.substAll(a.key), k) {
			continue
		}
		if in != nil && sameTerms(m.substAll(a.in), in) || out != nil && sameTerms(m.substAll(a.out), out) {
			return a
		}
	}
	return nil
}

func (m *Machine) decrypt(key, out []Val) []Val {
	k, y := m.terms8(key), m.terms8(out)
	if a := m.findApp(k, nil, y); a != nil {
		return vals(m.substAll(a.in))
	}
	kb, ok1 := constBytes(k)
	yb, ok2 := constBytes(y)
	if ok1 && ok2 {
		c, err := aes.NewCipher(kb)
		if err != nil {
			m.unsupported("key of %d bytes", len(kb))
		}
		in := make([]byte, 16)
		if m.tape != nil {
			for _, e := range m.tape.AES {
				if bytes.Equal(e.Key, kb) && bytes.Equal(e.Out, yb) {
					return byteVals(e.In)
				}
			}
		}
		c.Decrypt(in, yb)
		r := make([]Val, 16)
		for i := range r {
			r[i] = Val{N: uint64(in[i])}
		}
		return r
	}
	id := "d" + ids(k, y)
	a := m.aesByKey[id]
	if a == nil {
		a = &aesApp{key: k, out: y}
		n := len(m.aesByKey)
		for i := 0; i < 16; i++ {
			a.in = append(a.in, m.atom(fmt.Sprintf("e%d.%d", n, i), 8, 0, 255, func() *VarInfo { return &VarInfo{Draw: true, AES: a, Byte: i} }))
		}
		m.aesByKey[id] = a
	}
	m.pathAES[a] = true
	m.pathApps = append(m.pathApps, a)
	return vals(m.substAll(a.in))
}

// counter is iv+n as a big-endian number of 16 bytes.
func (m *Machine) counter(iv []Val, n uint64) []Val {
	if n == 0 {
		return append([]Val(nil), iv...)
	}
	c := m.C
	ts := m.terms8(iv)
	rev := func(b []*sym.Term) []*sym.Term {
		r := make([]*sym.Term, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return r
	}
	if b, ok := constBytes(ts); ok {
		r := make([]Val, 16)
		x := n
		for i := 15; i >= 0; i-- {
			x += uint64(b[i])
			r[i] = Val{N: x & 255}
			x >>= 8
		}
		return r
	}
	lo := c.Cat(rev(ts[8:]))
	hi := c.Cat(rev(ts[:8]))
	nt := c.Const(64, n)
	lo2 := c.Bin(sym.OpAdd, lo, nt)
	hi2 := c.Ite(c.Ult(lo2, nt), c.Bin(sym.OpAdd, hi, c.Const(64, 1)), hi)
	r := make([]Val, 16)
	for i := 0; i < 8; i++ {
		r[15-i] = tv(c.Byte(lo2, i))
		r[7-i] = tv(c.Byte(hi2, i))
	}
	return r
}

const aesctrat = "github.com/starius/aesctrat"

func init() {
	reg(aesctrat+".NewAesCtr", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		key := m.readSlice(a[0], 8)
		switch len(key) {
		case 16, 24, 32:
		default:
			m.goPanic(g, Val{P: "bad key length"}, fmt.Sprintf("bad key length: %d", len(key)))
			return Val{}, false
		}
		m.keys = append(m.keys, key)
		t := m.L.pkgs[aesctrat].Type("AesCtr").Type()
		o := m.newObj(t, "AesCtr")
		o.C[0] = m.mkSlice(key, "expanded key")
		return Val{P: o}, true
	})
	reg("(*"+aesctrat+".AesCtr).XORKeyStreamAt", false, func(m *Machine, g *Gor, a []Val, ci *callInfo) (Val, bool) {
		if a[0].P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return Val{}, false
		}
		dst, src := sl(a[1]), sl(a[2])
		iv := m.readSlice(a[3], 8)
		if len(iv) != 16 {
			m.goPanic(g, Val{P: "bad IV length"}, fmt.Sprintf("bad IV length: %d", len(iv)))
			return Val{}, false
		}
		if dst.Len != src.Len {
			m.goPanic(g, Val{P: "len(dst) != len(src)"}, "len(dst) != len(src)")
			return Val{}, false
		}
		if dst.Len > 0 && dst.Obj == src.Obj && dst.Off != src.Off && dst.Off < src.Off+src.Len && src.Off < dst.Off+dst.Len {
			m.goPanic(g, Val{P: "invalid buffer overlap"}, "invalid buffer overlap")
			return Val{}, false
		}
		m.reads++
		if m.Cfg.Reads > 0 && m.reads > m.Cfg.Reads {
			m.end("bound", "more than %d reads from generators", m.Cfg.Reads)
		}
		off := m.concInt(a[4], 64, "keystream offset")
		ks := m.loadCells(a[0], 1)[0]
		key := m.readSlice(ks, 8)
		in := m.readSlice(a[2], 8)
		out := make([]Val, len(in))
		var blk []Val
		for i := range in {
			p := off + uint64(i)
			if blk == nil || p%16 == 0 {
				blk = m.encrypt(key, m.counter(iv, p/16))
			}
			out[i] = m.xorV(m.norm(in[i]), blk[p%16])
		}
		m.writeSlice(a[1], 0, out)
		return Val{}, true
	})
}
