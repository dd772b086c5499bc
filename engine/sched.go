package main

import (
	"fmt"
	"go/types"
	"runtime"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- channels

type waiter struct {
	g    *G
	val  Value
	sel  *selWait
	idx  int
	done bool
}
type selWait struct{ fired bool }

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
	recvq  []*waiter
	sendq  []*waiter
	vc     []int32   // close / last op clock
	bvc    [][]int32 // clocks of buffered values
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done || (w.sel != nil && w.sel.fired) {
			continue
		}
		if w.sel != nil {
			w.sel.fired = true
		}
		w.done = true
		return w
	}
	return nil
}
func liveWaiters(q []*waiter) bool {
	for _, w := range q {
		if !w.done && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

func (p *Path) canSend(c *ChanV) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || liveWaiters(c.recvq))
}
func (p *Path) canRecv(c *ChanV) bool {
	return c != nil && (len(c.buf) > 0 || c.closed || liveWaiters(c.sendq))
}

// trySend completes a send that can proceed.
func (p *Path) trySend(c *ChanV, v Value) {
	if c.closed {
		p.throw(Iface{p.ex.plainErrType, cstr("send on closed channel")}, true)
	}
	if p.race != nil {
		p.race.release(p.cur, &c.vc)
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.g.selVal, w.g.selOK, w.g.selIdx = v, true, w.idx
		if p.race != nil {
			p.race.acquire(w.g, c.vc)
		}
		p.makeReady(w.g)
		return
	}
	c.buf = append(c.buf, v)
}

// tryRecv completes a receive that can proceed.
func (p *Path) tryRecv(c *ChanV) (Value, bool) {
	if p.race != nil {
		p.race.acquire(p.cur, c.vc)
		p.race.release(p.cur, &c.vc)
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.g.selIdx, w.g.selOK = w.idx, true
			p.makeReady(w.g)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.g.selIdx, w.g.selOK = w.idx, true
		p.makeReady(w.g)
		return w.val, true
	}
	return nil, false // closed
}

func (p *Path) chanSend(c *ChanV, v Value) {
	if c == nil {
		p.park("send on nil channel")
		p.parkForever()
	}
	if p.canSend(c) {
		p.trySend(c, v)
		return
	}
	if p.race != nil {
		p.race.release(p.cur, &c.vc)
	}
	w := &waiter{g: p.cur, val: v}
	c.sendq = append(c.sendq, w)
	p.cur.selOK = true
	g := p.cur
	p.park("chan send")
	if !g.selOK {
		p.throw(Iface{p.ex.plainErrType, cstr("send on closed channel")}, true)
	}
}

func (p *Path) parkForever() {
	for {
		p.park("forever")
	}
}

func (p *Path) chanRecv(c *ChanV) (Value, bool) {
	if c == nil {
		p.parkForever()
	}
	if p.canRecv(c) {
		v, ok := p.tryRecv(c)
		return v, ok
	}
	g := p.cur
	c.recvq = append(c.recvq, &waiter{g: g})
	p.park("chan receive")
	if p.race != nil {
		p.race.acquire(g, c.vc)
	}
	v := g.selVal
	g.selVal = nil
	return v, g.selOK
}

func (p *Path) chanClose(c *ChanV) {
	if c == nil {
		p.throw(Iface{p.ex.plainErrType, cstr("close of nil channel")}, true)
	}
	if c.closed {
		p.throw(Iface{p.ex.plainErrType, cstr("close of closed channel")}, true)
	}
	if p.race != nil {
		p.race.release(p.cur, &c.vc)
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.g.selVal, w.g.selOK, w.g.selIdx = nil, false, w.idx
		p.makeReady(w.g)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.g.selOK, w.g.selIdx = false, w.idx
		p.makeReady(w.g)
	}
}

func (fr *frame) selectOp(x *ssa.Select) Value {
	p := fr.p
	type cs struct {
		c    *ChanV
		send bool
		v    Value
	}
	var cases []cs
	var ready []int
	for i, s := range x.States {
		c, _ := fr.get(s.Chan).(*ChanV)
		k := cs{c: c, send: s.Dir == types.SendOnly}
		if k.send {
			k.v = copyVal(fr.get(s.Send))
		}
		cases = append(cases, k)
		if k.send && p.canSend(c) || !k.send && p.canRecv(c) {
			ready = append(ready, i)
		}
	}
	idx := -1
	var val Value
	ok := false
	switch {
	case len(ready) > 0:
		idx = ready[p.choose(len(ready), "select")]
		if cases[idx].send {
			p.trySend(cases[idx].c, cases[idx].v)
			ok = true
		} else {
			val, ok = p.tryRecv(cases[idx].c)
		}
	case !x.Blocking:
	default:
		g := p.cur
		sw := &selWait{}
		for i, k := range cases {
			if k.c == nil {
				continue
			}
			w := &waiter{g: g, idx: i, sel: sw, val: k.v}
			if k.send {
				if p.race != nil {
					p.race.release(g, &k.c.vc)
				}
				k.c.sendq = append(k.c.sendq, w)
			} else {
				k.c.recvq = append(k.c.recvq, w)
			}
		}
		g.selOK = true
		p.park("select")
		idx = g.selIdx
		val, ok = g.selVal, g.selOK
		g.selVal = nil
		if p.race != nil {
			p.race.acquire(g, cases[idx].c.vc)
		}
		if cases[idx].send && !ok {
			p.throw(Iface{p.ex.plainErrType, cstr("send on closed channel")}, true)
		}
	}
	res := Tuple{p.tc.Int(int64(idx)), p.tc.Bool(ok)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == idx && val != nil {
				res = append(res, val)
			} else {
				res = append(res, p.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---------------------------------------------------------------- timers

type timer struct {
	when   *Term // absolute, nanoseconds
	seq    int
	fire   func()
	period *Term
	dead   bool
}

func (p *Path) addTimer(d *Term, fire func(), period *Term) *timer {
	tc := p.tc
	// non-positive durations fire at once
	if p.branch(tc.bin(OpSLe, d, tc.Int(0))) {
		d = tc.Int(0)
	}
	p.timerSeq++
	t := &timer{when: tc.Add(p.now, d), seq: p.timerSeq, fire: fire, period: period}
	p.timers = append(p.timers, t)
	return t
}

// fireTimer advances virtual time to the earliest timer and fires it.
func (p *Path) fireTimer() bool {
	var live []*timer
	for _, t := range p.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	p.timers = live
	if len(live) == 0 {
		return false
	}
	best := live[0]
	for _, t := range live[1:] {
		// strictly earlier wins; ties: both orders are possible
		if p.branch(p.tc.bin(OpSLt, t.when, best.when)) {
			best = t
		} else if !p.cfg.fifoTimers && p.branch(p.tc.Eq(t.when, best.when)) {
			if p.choose(2, "timer tie") == 1 {
				best = t
			}
		}
	}
	p.now = best.when
	p.timerFired++
	if p.timerFired > p.cfg.maxTimers {
		p.ended = true
		p.outcome = Outcome{"cut", "timer bound reached"}
		runtime.Goexit()
	}
	if best.period != nil {
		best.when = p.tc.Add(best.when, best.period)
		p.timerSeq++
		best.seq = p.timerSeq
	} else {
		best.dead = true
	}
	best.fire()
	return true
}

// ---------------------------------------------------------------- locks

type muState struct {
	locked  bool
	owner   *G
	readers int
	waitq   []*G
	wwait   int
	vc      []int32
	rvc     []int32
}

func (p *Path) mu(ptr Value) *muState {
	a, ok := ptr.(*Value)
	if !ok {
		p.unsupported(fmt.Sprintf("lock %T", ptr))
	}
	if a == nil {
		p.nilDeref()
	}
	if s, ok := p.side[a]; ok {
		return s.(*muState)
	}
	s := &muState{}
	p.side[a] = s
	return s
}

func (p *Path) lock(m *muState) {
	for m.locked || m.readers > 0 {
		m.waitq = append(m.waitq, p.cur)
		m.wwait++
		p.park("lock")
		m.wwait--
	}
	m.locked = true
	m.owner = p.cur
	if p.race != nil {
		p.race.acquire(p.cur, m.vc)
		p.race.acquire(p.cur, m.rvc)
	}
}
func (p *Path) wakeAll(m *muState) {
	q := m.waitq
	m.waitq = nil
	for _, g := range q {
		p.makeReady(g)
	}
}
func (p *Path) unlock(m *muState, what string) {
	if !m.locked {
		p.fatal("sync: unlock of unlocked " + what)
	}
	if p.race != nil {
		p.race.release(p.cur, &m.vc)
	}
	m.locked = false
	m.owner = nil
	p.wakeAll(m)
}
func (p *Path) rlock(m *muState) {
	// a waiting writer blocks new readers
	for m.locked || m.wwait > 0 {
		m.waitq = append(m.waitq, p.cur)
		p.park("rlock")
		if !m.locked {
			break
		}
	}
	m.readers++
	if p.race != nil {
		p.race.acquire(p.cur, m.vc)
	}
}
func (p *Path) runlock(m *muState) {
	if m.readers == 0 {
		p.fatal("sync: RUnlock of unlocked RWMutex")
	}
	if p.race != nil {
		p.race.release(p.cur, &m.rvc)
	}
	m.readers--
	if m.readers == 0 {
		p.wakeAll(m)
	}
}

// fatal is an unrecoverable runtime throw.
func (p *Path) fatal(msg string) {
	r, m := p.sol.check(nil, true)
	if r == Sat {
		p.addViolation("panic", "crash: fatal error: "+msg, m)
	}
	p.end("violation", "fatal error: "+msg+p.whereStack(p.cur.fr, 5))
}
