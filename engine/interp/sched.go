package interp

import (
	"fmt"
	"go/types"
)

// ---- vector clocks ----

type vclock []int32

func (c vclock) at(i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *vclock) set(i int, x int32) {
	for len(*c) <= i {
		*c = append(*c, 0)
	}
	(*c)[i] = x
}

func (c *vclock) join(o vclock) {
	for i, x := range o {
		if x > c.at(i) {
			c.set(i, x)
		}
	}
}

func (c vclock) copy() vclock { return append(vclock(nil), c...) }

// release returns the clock of g to be handed to another goroutine, and advances it.
func (m *Machine) release(g *Gor) vclock {
	if !m.Cfg.Race {
		return nil
	}
	c := g.VC.copy()
	g.VC.set(g.ID, g.VC.at(g.ID)+1)
	return c
}

func (m *Machine) acquire(g *Gor, c vclock) {
	if m.Cfg.Race && c != nil {
		g.VC.join(c)
	}
}

type raceCell struct {
	wg    int // 1+goroutine of the last write
	wt    int32
	ww    string
	reads vclock
	rw    string
	epoch int
}

func (m *Machine) raceTouch(rc *raceCell) {
	if rc.epoch != m.epoch {
		*rc = raceCell{epoch: m.epoch}
	}
}

func (m *Machine) raceCells(o *Object) []raceCell {
	if len(o.Race) < len(o.C) {
		o.Race = append(o.Race, make([]raceCell, len(o.C)-len(o.Race))...)
	}
	return o.Race
}

func (m *Machine) raceRead(o *Object, off, n int) {
	if len(m.gors) < 2 {
		return
	}
	cs := m.raceCells(o)
	g := m.cur
	for i := off; i < off+n && i < len(cs); i++ {
		m.cellRead(&cs[i], g, o)
	}
}

func (m *Machine) cellRead(rc *raceCell, g *Gor, o *Object) {
	m.raceTouch(rc)
	if rc.wg != 0 && rc.wg != 1+g.ID && rc.wt > g.VC.at(rc.wg-1) {
		m.race(o, "read", "write", rc.ww)
	}
	rc.reads.set(g.ID, g.VC.at(g.ID))
	rc.rw = m.fnName(g)
}

func (m *Machine) raceWrite(o *Object, off, n int) {
	if len(m.gors) < 2 {
		return
	}
	cs := m.raceCells(o)
	g := m.cur
	for i := off; i < off+n && i < len(cs); i++ {
		m.cellWrite(&cs[i], g, o)
	}
}

func (m *Machine) cellWrite(rc *raceCell, g *Gor, o *Object) {
	m.raceTouch(rc)
	if rc.wg != 0 && rc.wg != 1+g.ID && rc.wt > g.VC.at(rc.wg-1) {
		m.race(o, "write", "write", rc.ww)
	}
	for i, t := range rc.reads {
		if i != g.ID && t > g.VC.at(i) {
			m.race(o, "write", "read", rc.rw)
		}
	}
	rc.wg, rc.wt, rc.ww = 1+g.ID, g.VC.at(g.ID), m.fnName(g)
	rc.reads = rc.reads[:0]
}

func (m *Machine) raceMap(mp *MapObj, write bool) {
	if len(m.gors) < 2 {
		return
	}
	o := &Object{Name: "map"}
	if write {
		m.cellWrite(&mp.Race, m.cur, o)
	} else {
		m.cellRead(&mp.Race, m.cur, o)
	}
}

func (m *Machine) fnName(g *Gor) string {
	for i := len(g.Frames) - 1; i >= 0; i-- {
		if c := g.Frames[i].code; m.L.repo(c.pkg) || i == 0 {
			return c.name
		}
	}
	return "?"
}

func (m *Machine) race(o *Object, a, b, where string) {
	m.pathViolation("race", fmt.Sprintf("data race on %s: %s in %s, earlier %s in %s", o.Name, a, m.fnName(m.cur), b, where))
}

// ---- goroutines ----

func (m *Machine) newGor() *Gor {
	g := &Gor{ID: len(m.gors)}
	g.VC.set(g.ID, 1)
	m.gors = append(m.gors, g)
	return g
}

func (m *Machine) goStmt(g *Gor, fr *Frame, in *Ins) {
	ci := in.call
	var args []Val
	for _, a := range ci.args {
		args = append(args, m.get(fr, a))
	}
	n := m.newGor()
	if m.Cfg.Race {
		n.VC.join(m.release(g))
		n.VC.set(n.ID, 1)
	}
	switch {
	case ci.builtin != "":
		m.unsupported("go with builtin %s", ci.builtin)
	case ci.method != nil:
		recv := m.get(fr, ci.val)
		if recv.P == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return
		}
		itf := recv.P.(*Iface)
		args = append([]Val{itf.V}, args...)
		m.startGor(n, m.funcVal(m.method(itf.T, ci.method)), args)
	case ci.fn != nil:
		m.startGor(n, m.funcVal(ci.fn), args)
	default:
		c, _ := m.get(fr, ci.val).P.(*Closure)
		if c == nil {
			m.rtPanic(g, "go of nil func value")
			return
		}
		m.startGor(n, c, args)
	}
}

func (m *Machine) startGor(n *Gor, c *Closure, args []Val) {
	if c.Recv != nil {
		args = append([]Val{*c.Recv}, args...)
	}
	if c.Intr != nil {
		m.unsupported("go with %s", c.Intr.name)
	}
	fn := c.Fn
	if r := m.redirect(fn); r != nil {
		fn = r
	}
	m.pushFrame(n, nil, m.code(fn), c.Free, args)
}

func (m *Machine) runnable(g *Gor) bool {
	switch g.State {
	case gRun:
		return len(g.Frames) > 0
	case gBlocked:
		return g.Wait.ready()
	}
	return false
}

// block makes g wait; the instruction is executed again when ready says so.
func (m *Machine) block(g *Gor, what string, ready func() bool) {
	g.State = gBlocked
	if g.Wait == nil {
		g.Wait = &waitInfo{}
	}
	g.Wait.what, g.Wait.ready = what, ready
}

// schedPoint offers to run another goroutine before an operation that others can see.
// It returns false if g has to give way.
func (m *Machine) schedPoint(g *Gor) bool {
	if g.skip {
		g.skip = false
		return true
	}
	if m.Cfg.NoSched || m.preempts >= m.Cfg.Preempt || len(m.gors) < 2 || g.Atomic {
		return true
	}
	var o []*Gor
	for _, x := range m.gors {
		if x != g && m.runnable(x) {
			o = append(o, x)
		}
	}
	if len(o) == 0 {
		return true
	}
	k := m.choose(1 + len(o))
	if k == 0 {
		return true
	}
	m.preempts++
	g.skip = true
	m.nextG = o[k-1]
	return false
}

// schedule runs goroutines until the first one is done.
func (m *Machine) schedule() {
	g := m.gors[0]
	for {
		if g.State == gBlocked {
			g.State = gRun
		}
		m.schedLog = append(m.schedLog, g.ID)
		m.run(g)
		if m.gors[0].State == gDone {
			return
		}
		if m.nextG != nil {
			g, m.nextG = m.nextG, nil
			continue
		}
		var o []*Gor
		for _, x := range m.gors {
			if m.runnable(x) {
				o = append(o, x)
			}
		}
		if len(o) == 0 {
			what := ""
			for _, x := range m.gors {
				if x.State == gBlocked {
					what += fmt.Sprintf(" goroutine %d: %s in %s;", x.ID, x.Wait.what, m.fnName(x))
				}
			}
			m.pathViolation("deadlock", "all goroutines are blocked:"+what)
		}
		i := 0
		if !m.Cfg.NoSched && len(o) > 1 {
			i = m.choose(len(o))
		}
		g = o[i]
	}
}

// ---- channels ----

func (m *Machine) liveWaiter(q []*waiter) (*waiter, []*waiter) {
	for len(q) > 0 && *q[0].Done {
		q = q[1:]
	}
	if len(q) == 0 {
		return nil, q
	}
	return q[0], q
}

func (m *Machine) canSend(c *ChanObj) bool {
	if c.Closed {
		return true
	}
	w, _ := m.liveWaiter(c.Recvq)
	return w != nil || len(c.Buf) < c.Cap
}

func (m *Machine) canRecv(c *ChanObj) bool {
	w, _ := m.liveWaiter(c.Sendq)
	return w != nil || len(c.Buf) > 0 || c.Closed
}

// trySend sends if that is possible at once; panics (in the program) are reported by false, true.
func (m *Machine) trySend(g *Gor, c *ChanObj, v Val) (ok, panicked bool) {
	if c.Closed {
		m.goPanic(g, Val{P: &Iface{T: m.L.rtErr, V: Val{P: []Val{{P: "send on closed channel"}}}}}, "send on closed channel")
		return false, true
	}
	m.touchChan(c)
	if w, q := m.liveWaiter(c.Recvq); w != nil {
		c.Recvq = q[1:]
		w.V, w.Ok, w.Got = v, true, true
		*w.Done = true
		w.VC = m.release(g)
		m.acquire(g, w.VC0)
		return true, false
	}
	if len(c.Buf) < c.Cap {
		if k := c.nsend - c.Cap; k >= 0 && k < len(c.slots) {
			m.acquire(g, c.slots[k])
		}
		c.nsend++
		c.Buf = append(c.Buf[:len(c.Buf):len(c.Buf)], chanItem{v, m.release(g)})
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(g *Gor, c *ChanObj) (v Val, ok, done bool) {
	m.touchChan(c)
	if len(c.Buf) > 0 {
		it := c.Buf[0]
		c.Buf = c.Buf[1:]
		m.acquire(g, it.VC)
		if m.Cfg.Race {
			c.slots = append(c.slots[:len(c.slots):len(c.slots)], m.release(g))
		}
		if w, q := m.liveWaiter(c.Sendq); w != nil {
			c.Sendq = q[1:]
			*w.Done, w.Got = true, true
			c.nsend++
			c.Buf = append(c.Buf[:len(c.Buf):len(c.Buf)], chanItem{w.V, w.VC0})
			w.VC = m.release(g)
		}
		return it.V, true, true
	}
	if w, q := m.liveWaiter(c.Sendq); w != nil {
		c.Sendq = q[1:]
		*w.Done, w.Got = true, true
		m.acquire(g, w.VC0)
		w.VC = m.release(g)
		return w.V, true, true
	}
	if c.Closed {
		m.acquire(g, c.VC)
		return m.LS.zero(c.Elem), false, true
	}
	return Val{}, false, false
}

func (m *Machine) send(g *Gor, fr *Frame, in *Ins) {
	c, _ := m.get(fr, in.a).P.(*ChanObj)
	if g.Wait != nil && g.Wait.wk != nil {
		w := g.Wait.wk
		g.Wait = nil
		if w.Got {
			m.acquire(g, w.VC)
			fr.pc++
			return
		}
		*w.Done = true
		m.trySend(g, c, Val{}) // closed meanwhile
		return
	}
	if c == nil {
		m.block(g, "send on nil channel", func() bool { return false })
		return
	}
	v := m.get(fr, in.b)
	ok, pan := m.trySend(g, c, v)
	if pan {
		return
	}
	if ok {
		fr.pc++
		return
	}
	w := &waiter{G: g, V: v, Done: new(bool), VC0: m.release(g)}
	c.Sendq = append(c.Sendq[:len(c.Sendq):len(c.Sendq)], w)
	g.Wait = &waitInfo{wk: w}
	m.block(g, "send", func() bool { return *w.Done || c.Closed })
}

func (m *Machine) recv(g *Gor, fr *Frame, in *Ins) {
	c, _ := m.get(fr, in.a).P.(*ChanObj)
	finish := func(v Val, ok bool) {
		if in.comma {
			v = Val{P: []Val{v, bval(ok)}}
		}
		fr.regs[in.dst] = v
		fr.pc++
	}
	if g.Wait != nil && g.Wait.wk != nil {
		w := g.Wait.wk
		g.Wait = nil
		if w.Got {
			m.acquire(g, w.VC)
			finish(w.V, true)
			return
		}
		*w.Done = true
	}
	if c == nil {
		m.block(g, "receive from nil channel", func() bool { return false })
		return
	}
	if v, ok, done := m.tryRecv(g, c); done {
		finish(v, ok)
		return
	}
	w := &waiter{G: g, Done: new(bool), VC0: m.release(g)}
	c.Recvq = append(c.Recvq[:len(c.Recvq):len(c.Recvq)], w)
	g.Wait = &waitInfo{wk: w}
	m.block(g, "receive", func() bool { return *w.Done || c.Closed })
}

func (m *Machine) selectOp(g *Gor, fr *Frame, in *Ins) {
	// result: index, recvOk, one value per receive state
	finish := func(idx int, ok bool, v Val) {
		r := []Val{{N: uint64(int64(idx))}, bval(ok)}
		for i, s := range in.sel {
			if s.send {
				continue
			}
			if i == idx {
				r = append(r, v)
			} else {
				var z Val
				if c, _ := m.get(fr, s.ch).P.(*ChanObj); c != nil {
					z = m.LS.zero(c.Elem)
				}
				r = append(r, z)
			}
		}
		fr.regs[in.dst] = Val{P: r}
		fr.pc++
	}
	if g.Wait != nil && len(g.Wait.w) > 0 {
		ws := g.Wait.w
		g.Wait = nil
		for _, w := range ws {
			if w.Got {
				m.acquire(g, w.VC)
				finish(w.Case, true, w.V)
				return
			}
		}
		*ws[0].Done = true
	}
	var ready []int
	for i, s := range in.sel {
		c, _ := m.get(fr, s.ch).P.(*ChanObj)
		if c == nil {
			continue
		}
		if s.send && m.canSend(c) || !s.send && m.canRecv(c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[m.choose(len(ready))]
		s := in.sel[i]
		c := m.get(fr, s.ch).P.(*ChanObj)
		if s.send {
			if _, pan := m.trySend(g, c, m.get(fr, s.val)); pan {
				return
			}
			finish(i, false, Val{})
			return
		}
		v, ok, _ := m.tryRecv(g, c)
		finish(i, ok, v)
		return
	}
	if !in.comma { // has a default case
		finish(-1, false, Val{})
		return
	}
	var ws []*waiter
	var chans []*ChanObj
	done := new(bool)
	vc := m.release(g)
	for i, s := range in.sel {
		c, _ := m.get(fr, s.ch).P.(*ChanObj)
		if c == nil {
			continue
		}
		m.touchChan(c)
		w := &waiter{G: g, Case: i, Done: done, VC0: vc}
		if s.send {
			w.V = m.get(fr, s.val)
			c.Sendq = append(c.Sendq[:len(c.Sendq):len(c.Sendq)], w)
		} else {
			c.Recvq = append(c.Recvq[:len(c.Recvq):len(c.Recvq)], w)
		}
		ws = append(ws, w)
		chans = append(chans, c)
	}
	g.Wait = &waitInfo{w: ws}
	m.block(g, "select", func() bool {
		if *done {
			return true
		}
		for _, c := range chans {
			if c.Closed {
				return true
			}
		}
		return false
	})
}

func (m *Machine) closeChan(g *Gor, v Val) bool {
	c, _ := v.P.(*ChanObj)
	if c == nil {
		m.goPanic(g, Val{P: &Iface{T: m.L.rtErr, V: Val{P: []Val{{P: "close of nil channel"}}}}}, "close of nil channel")
		return false
	}
	if c.Closed {
		m.goPanic(g, Val{P: &Iface{T: m.L.rtErr, V: Val{P: []Val{{P: "close of closed channel"}}}}}, "close of closed channel")
		return false
	}
	m.touchChan(c)
	c.Closed = true
	c.VC = m.release(g)
	return true
}

// ---- locks ----

type lockKey struct {
	o   *Object
	off int
}

type lockState struct {
	locked  bool
	readers int
	n       int // wait groups
	vc      vclock
}

type onceState struct {
	done, running bool
	vc            vclock
}

func (m *Machine) lock(p Val) *lockState {
	o, ok := p.P.(*Object)
	if !ok {
		m.unsupported("lock at a symbolic place")
	}
	k := lockKey{o, int(p.N)}
	s := m.locks[k]
	if s == nil {
		s = &lockState{}
		m.locks[k] = s
	}
	return s
}

var _ = types.Identical
