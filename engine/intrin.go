package main

import (
	"hash/fnv"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic replaces the body of a function.  The second result tells whether
// it handled the call; if not, the body is interpreted.
type intrinsic func(p *Path, caller *frame, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics = map[string]intrinsic{}
var pkgIntrinsics = map[string]intrinsic{}

// packages whose initialisers are not run (their globals stay zero, error
// globals get distinct error values)
var skipInit = map[string]bool{
	"net": true, "os": true, "syscall": true, "runtime": true, "internal/poll": true, "crypto/tls": true,
	"internal/godebug": true, "log": true, "internal/syscall/unix": true, "os/signal": true, "internal/testlog": true,
	"google.golang.org/protobuf/proto": true, "github.com/golang/protobuf/proto": true,
	"google.golang.org/protobuf/types/known/wrapperspb": true,
	"encoding/json": true, "encoding/xml": true, "gopkg.in/yaml.v2": true, "github.com/BurntSushi/toml": true,
	"context": false, "internal/cpu": true, "internal/bytealg": true,
}
var lenientSkip = map[string]bool{
	"internal/godebug": true, "os": true, "syscall": true, "runtime": true, "google.golang.org/protobuf/reflect/protoregistry": true,
	"regexp": true, "reflect": false,
}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (p *Path) bool(b bool) Value { return p.tc.Bool(b) }

// errNew makes an errors.New value.
func (p *Path) errNew(s Str) Iface {
	t := p.ex.errStrType
	c := new(Value)
	*c = Struct{s}
	return Iface{types.NewPointer(t), c}
}
func (p *Path) nilErr() Iface { return Iface{} }

func opaque(tag string) Str {
	return Str{lazy: &Lazy{tag: tag, force: func(p *Path) Str {
		p.unsupported("content of opaque text " + tag)
		return Str{}
	}}}
}

func (s Str) pending() bool { return s.lazy != nil && s.lazy.done == nil }

func init() {
	// ------------------------------------------------ sync
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { p.lock(p.mu(a[0])); return nil, true },
		"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		p.unlock(p.mu(a[0]), "mutex")
		return nil, true
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		m := p.mu(a[0])
		if m.locked || m.readers > 0 {
			return p.tc.False, true
		}
		p.lock(m)
		return p.tc.True, true
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { p.rlock(p.mu(a[0])); return nil, true },
		"(*sync.RWMutex).RLock")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		m := p.mu(a[0])
		if m.locked || m.wwait > 0 {
			return p.tc.False, true
		}
		p.rlock(m)
		return p.tc.True, true
	}, "(*sync.RWMutex).TryRLock")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { p.runlock(p.mu(a[0])); return nil, true },
		"(*sync.RWMutex).RUnlock")

	// WaitGroup
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		p.wgAdd(a[0], p.concInt(a[1].(*Term)))
		return nil, true
	}, "(*sync.WaitGroup).Add")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { p.wgAdd(a[0], -1); return nil, true },
		"(*sync.WaitGroup).Done")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		w := p.wgOf(a[0])
		for w.n > 0 {
			w.q = append(w.q, p.cur)
			p.park("WaitGroup.Wait")
		}
		if p.race != nil {
			p.race.acquire(p.cur, w.vc)
		}
		return nil, true
	}, "(*sync.WaitGroup).Wait")
	reg(func(p *Path, caller *frame, _ *ssa.Function, a []Value) (Value, bool) {
		ptr, f := a[0], a[1].(*Closure)
		p.wgAdd(ptr, 1)
		p.spawn(&Closure{nat: func(p *Path, _ []Value) Value {
			p.callClosure(nil, f, nil)
			p.wgAdd(ptr, -1)
			return nil
		}}, nil, "wg.Go")
		return nil, true
	}, "(*sync.WaitGroup).Go")

	// Once
	reg(func(p *Path, caller *frame, _ *ssa.Function, a []Value) (Value, bool) {
		k := a[0].(*Value)
		if k == nil {
			p.nilDeref()
		}
		o, _ := p.side[k].(*onceState)
		if o == nil {
			o = &onceState{}
			p.side[k] = o
		}
		for o.running && o.g != p.cur {
			o.q = append(o.q, p.cur)
			p.park("Once.Do")
		}
		if o.done {
			if p.race != nil {
				p.race.acquire(p.cur, o.vc)
			}
			return nil, true
		}
		if o.running {
			p.parkForever() // recursive Do deadlocks
		}
		o.running, o.g = true, p.cur
		fin := func() {
			o.done, o.running = true, false
			if p.race != nil {
				p.race.release(p.cur, &o.vc)
			}
			for _, g := range o.q {
				p.makeReady(g)
			}
			o.q = nil
		}
		ok := false
		defer func() {
			if !ok && !p.ended && !p.killed {
				fin()
			}
		}()
		p.callClosure(caller, a[1].(*Closure), nil)
		ok = true
		fin()
		return nil, true
	}, "(*sync.Once).Do")

	// Pool
	reg(func(p *Path, caller *frame, _ *ssa.Function, a []Value) (Value, bool) {
		k := a[0].(*Value)
		if l, ok := p.side[k].(*[]Value); ok && len(*l) > 0 {
			v := (*l)[len(*l)-1]
			*l = (*l)[:len(*l)-1]
			return v, true
		}
		s := (*k).(Struct)
		if c, ok := s[len(s)-1].(*Closure); ok && c != nil {
			return p.callClosure(caller, c, nil), true
		}
		return Iface{}, true
	}, "(*sync.Pool).Get")
	reg(func(p *Path, caller *frame, _ *ssa.Function, a []Value) (Value, bool) {
		k := a[0].(*Value)
		if p.lenient > 0 {
			return nil, true
		}
		l, ok := p.side[k].(*[]Value)
		if !ok {
			l = &[]Value{}
			p.side[k] = l
		}
		*l = append(*l, a[1])
		return nil, true
	}, "(*sync.Pool).Put")

	// Cond
	reg(func(p *Path, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		k := a[0].(*Value)
		q, ok := p.side[k].(*[]*G)
		if !ok {
			q = &[]*G{}
			p.side[k] = q
		}
		l := (*k).(Struct)[1].(Iface)
		*q = append(*q, p.cur)
		p.callClosure(caller, p.methodByName(l, "Unlock"), []Value{l.v})
		p.park("Cond.Wait")
		p.callClosure(caller, p.methodByName(l, "Lock"), []Value{l.v})
		return nil, true
	}, "(*sync.Cond).Wait")
	cond := func(all bool) intrinsic {
		return func(p *Path, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if q, ok := p.side[a[0].(*Value)].(*[]*G); ok {
				for len(*q) > 0 {
					g := (*q)[0]
					*q = (*q)[1:]
					p.makeReady(g)
					if !all {
						break
					}
				}
			}
			return nil, true
		}
	}
	reg(cond(true), "(*sync.Cond).Broadcast")
	reg(cond(false), "(*sync.Cond).Signal")

	// sync.Map
	regSyncMap()
	regAtomics()
	regTime()
	regFmt()
	regStrings()
	regReflect()
	regMisc()
	regRT()
	regCodecs()
}

type onceState struct {
	done, running bool
	g             *G
	q             []*G
	vc            []int32
}
type wgState struct {
	n  int
	q  []*G
	vc []int32
}

func (p *Path) wgOf(v Value) *wgState {
	k, ok := v.(*Value)
	if !ok || k == nil {
		p.nilDeref()
	}
	w, _ := p.side[k].(*wgState)
	if w == nil {
		w = &wgState{}
		p.side[k] = w
	}
	return w
}
func (p *Path) wgAdd(v Value, d int) {
	w := p.wgOf(v)
	if p.race != nil {
		p.race.release(p.cur, &w.vc)
	}
	w.n += d
	if w.n < 0 {
		p.panicStr("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			p.makeReady(g)
		}
		w.q = nil
	}
}

type smState struct {
	m  *MapV
	vc []int32
}

func (p *Path) smOf(v Value) *smState {
	k, ok := v.(*Value)
	if !ok || k == nil {
		p.nilDeref()
	}
	s, _ := p.side[k].(*smState)
	if s == nil {
		s = &smState{m: &MapV{}}
		p.side[k] = s
	}
	if p.race != nil {
		p.race.acquire(p.cur, s.vc)
		p.race.release(p.cur, &s.vc)
	}
	return s
}

// rawMap operations without race accounting
func (p *Path) rawSet(m *MapV, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	m.ents = append(m.ents, &MapEntry{k, v})
}
func (p *Path) rawDel(m *MapV, k Value) (Value, bool) {
	e := p.mapFind(m, k)
	if e == nil {
		return nil, false
	}
	out := make([]*MapEntry, 0, len(m.ents))
	for _, x := range m.ents {
		if x != e {
			out = append(out, x)
		}
	}
	m.ents = out
	return e.v, true
}

func regSyncMap() {
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		if e := p.mapFind(p.smOf(a[0]).m, a[1]); e != nil {
			return Tuple{e.v, p.tc.True}, true
		}
		return Tuple{Iface{}, p.tc.False}, true
	}, "(*sync.Map).Load")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		p.rawSet(p.smOf(a[0]).m, a[1], a[2])
		return nil, true
	}, "(*sync.Map).Store")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		s := p.smOf(a[0])
		if e := p.mapFind(s.m, a[1]); e != nil {
			return Tuple{e.v, p.tc.True}, true
		}
		p.rawSet(s.m, a[1], a[2])
		return Tuple{a[2], p.tc.False}, true
	}, "(*sync.Map).LoadOrStore")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		v, ok := p.rawDel(p.smOf(a[0]).m, a[1])
		if !ok {
			return Tuple{Iface{}, p.tc.False}, true
		}
		return Tuple{v, p.tc.True}, true
	}, "(*sync.Map).LoadAndDelete")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		p.rawDel(p.smOf(a[0]).m, a[1])
		return nil, true
	}, "(*sync.Map).Delete")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		p.smOf(a[0]).m.ents = nil
		return nil, true
	}, "(*sync.Map).Clear")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		s := p.smOf(a[0])
		if e := p.mapFind(s.m, a[1]); e != nil {
			old := e.v
			e.v = a[2]
			return Tuple{old, p.tc.True}, true
		}
		p.rawSet(s.m, a[1], a[2])
		return Tuple{Iface{}, p.tc.False}, true
	}, "(*sync.Map).Swap")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		s := p.smOf(a[0])
		if e := p.mapFind(s.m, a[1]); e != nil && p.branch(p.eqVal(e.v, a[2])) {
			e.v = a[3]
			return p.tc.True, true
		}
		return p.tc.False, true
	}, "(*sync.Map).CompareAndSwap")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		s := p.smOf(a[0])
		if e := p.mapFind(s.m, a[1]); e != nil && p.branch(p.eqVal(e.v, a[2])) {
			p.rawDel(s.m, a[1])
			return p.tc.True, true
		}
		return p.tc.False, true
	}, "(*sync.Map).CompareAndDelete")
	reg(func(p *Path, c *frame, _ *ssa.Function, a []Value) (Value, bool) {
		s := p.smOf(a[0])
		ents := append([]*MapEntry{}, s.m.ents...)
		if len(ents) == 2 && p.choose(2, "maporder") == 1 {
			ents[0], ents[1] = ents[1], ents[0]
		}
		for _, e := range ents {
			r := p.callClosure(c, a[1].(*Closure), []Value{e.k, e.v})
			if !p.branch(r.(*Term)) {
				break
			}
		}
		return nil, true
	}, "(*sync.Map).Range")
}

// ---------------------------------------------------------------- atomics

func (p *Path) atomAcc(ptr Value) *Value {
	a, ok := ptr.(*Value)
	if !ok {
		p.unsupported(fmt.Sprintf("atomic on %T", ptr))
	}
	if a == nil {
		p.nilDeref()
	}
	if p.race != nil {
		p.race.atomic(p, a)
	}
	return a
}

func regAtomics() {
	pkgIntrinsics["sync/atomic"] = func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := fn.Name()
		if fn.Signature.Recv() != nil {
			rt := fn.Signature.Recv().Type().String()
			switch {
			case strings.HasSuffix(rt, "atomic.Value"):
				cell := p.atomAcc(a[0])
				s := (*cell).(Struct)
				switch n {
				case "Load":
					return s[0], true
				case "Store":
					if a[1].(Iface).t == nil {
						p.panicStr("sync/atomic: store of nil value into Value")
					}
					s[0] = a[1]
					return nil, true
				case "Swap":
					o := s[0]
					s[0] = a[1]
					return o, true
				case "CompareAndSwap":
					if p.branch(p.eqVal(s[0], a[1])) {
						s[0] = a[2]
						return p.tc.True, true
					}
					return p.tc.False, true
				}
				return nil, false
			case strings.Contains(rt, "atomic.Pointer["):
				cell := p.atomAcc(a[0])
				s := (*cell).(Struct)
				i := len(s) - 1
				switch n {
				case "Load":
					return s[i], true
				case "Store":
					s[i] = a[1]
					return nil, true
				case "Swap":
					o := s[i]
					s[i] = a[1]
					return o, true
				case "CompareAndSwap":
					if p.branch(p.eqVal(s[i], a[1])) {
						s[i] = a[2]
						return p.tc.True, true
					}
					return p.tc.False, true
				}
				return nil, false
			}
			return nil, false // typed integers: interpreted, end in the functions below
		}
		switch {
		case strings.HasPrefix(n, "Load"):
			return copyVal(*p.atomAcc(a[0])), true
		case strings.HasPrefix(n, "Store"):
			*p.atomAcc(a[0]) = a[1]
			return nil, true
		case strings.HasPrefix(n, "Add"):
			c := p.atomAcc(a[0])
			*c = p.tc.Add((*c).(*Term), a[1].(*Term))
			return *c, true
		case strings.HasPrefix(n, "And"):
			c := p.atomAcc(a[0])
			o := *c
			*c = p.tc.bin(OpBAnd, o.(*Term), a[1].(*Term))
			return o, true
		case strings.HasPrefix(n, "Or"):
			c := p.atomAcc(a[0])
			o := *c
			*c = p.tc.bin(OpBOr, o.(*Term), a[1].(*Term))
			return o, true
		case strings.HasPrefix(n, "Swap"):
			c := p.atomAcc(a[0])
			o := *c
			*c = a[1]
			return o, true
		case strings.HasPrefix(n, "CompareAndSwap"):
			c := p.atomAcc(a[0])
			if p.branch(p.eqVal(*c, a[1])) {
				*c = a[2]
				return p.tc.True, true
			}
			return p.tc.False, true
		}
		return nil, false
	}
}

// ---------------------------------------------------------------- time

// timeVal builds a time.Time for the virtual instant t (nanoseconds since the
// start of the path, which is 2000-01-01 UTC as in a synctest bubble).
func (p *Path) timeVal(t *Term) Value {
	const secs = 63082281600 // year 1 .. 2000-01-01
	tc := p.tc
	var sec, ns *Term
	if t.IsConst() {
		sec, ns = tc.Int(int64(t.c/1e9)), tc.BV(64, t.c%1e9)
	} else {
		sec, ns = tc.bin(OpUDiv, t, tc.Int(1e9)), tc.bin(OpURem, t, tc.Int(1e9))
	}
	return Struct{ns, tc.Add(tc.Int(secs), sec), (*Value)(nil)}
}

type timerObj struct {
	t  *timer
	ch *ChanV
	f  *Closure
}

func (p *Path) startTimer(o *timerObj, d *Term, period *Term) {
	o.t = p.addTimer(d, func() {
		if o.f != nil {
			p.spawn(o.f, nil, "timer")
			return
		}
		if len(o.ch.buf) == 0 {
			p.deliver(o.ch, p.timeVal(p.now))
		}
	}, period)
}

// deliver is a non-blocking send by the environment.
func (p *Path) deliver(c *ChanV, v Value) {
	if w := popWaiter(&c.recvq); w != nil {
		w.g.selVal, w.g.selOK, w.g.selIdx = v, true, w.idx
		p.makeReady(w.g)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
	}
}

func (p *Path) timeType() types.Type {
	return p.ex.prog.pkgs["time"].Type("Time").Type()
}

func regTime() {
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		d := a[0].(*Term)
		g := p.cur
		p.addTimer(d, func() { p.makeReady(g) }, nil)
		p.park("sleep")
		return nil, true
	}, "time.Sleep")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return p.timeVal(p.now), true }, "time.Now")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		// time.Since/Until on virtual instants
		return nil, false
	}, "time.Since")
	mk := func(p *Path, d *Term, period *Term, typ string, f *Closure) Value {
		o := &timerObj{f: f}
		if f == nil {
			o.ch = &ChanV{cap: 1, et: p.timeType()}
		}
		st := p.zero(p.ex.prog.pkgs["time"].Type(typ).Type()).(Struct)
		if f == nil {
			st[0] = o.ch
		}
		c := new(Value)
		*c = st
		p.side[c] = o
		p.startTimer(o, d, period)
		return c
	}
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return mk(p, a[0].(*Term), nil, "Timer", nil), true }, "time.NewTimer")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		return mk(p, a[0].(*Term), nil, "Timer", a[1].(*Closure)), true
	}, "time.AfterFunc")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		d := a[0].(*Term)
		if p.branch(p.tc.bin(OpSLe, d, p.tc.Int(0))) {
			p.panicStr("non-positive interval for NewTicker")
		}
		return mk(p, d, d, "Ticker", nil), true
	}, "time.NewTicker")
	stop := func(p *Path, v Value) bool {
		k := v.(*Value)
		if k == nil {
			p.nilDeref()
		}
		o, _ := p.side[k].(*timerObj)
		if o == nil {
			p.panicStr("time: Stop called on uninitialized Timer")
		}
		was := o.t != nil && !o.t.dead
		if o.t != nil {
			o.t.dead = true
		}
		if o.ch != nil && len(o.ch.buf) > 0 {
			o.ch.buf = nil
			was = true
		}
		return was
	}
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return p.bool(stop(p, a[0])), true }, "(*time.Timer).Stop")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { stop(p, a[0]); return nil, true }, "(*time.Ticker).Stop")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		w := stop(p, a[0])
		p.startTimer(p.side[a[0].(*Value)].(*timerObj), a[1].(*Term), nil)
		return p.bool(w), true
	}, "(*time.Timer).Reset")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		stop(p, a[0])
		p.startTimer(p.side[a[0].(*Value)].(*timerObj), a[1].(*Term), a[1].(*Term))
		return nil, true
	}, "(*time.Ticker).Reset")
	op := func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return opaque("time text"), true }
	reg(op, "(time.Time).String", "(time.Time).Format", "(time.Duration).String", "(time.Time).GoString")
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return a[0], true },
		"(time.Time).In", "(time.Time).Local", "(time.Time).UTC", "(time.Time).Round", "(time.Time).Truncate")
}

// ---------------------------------------------------------------- fmt

type fmtPiece struct {
	s Str
}

// fmtVal renders a value as %v (or a given verb) would; ok=false: opaque.
func (p *Path) fmtVal(verb byte, v Iface, depth int) (Str, bool) {
	if v.t == nil {
		if verb == 's' || verb == 'd' {
			return cstr("%!" + string(verb) + "(<nil>)"), true
		}
		return cstr("<nil>"), true
	}
	if verb == 'T' {
		return cstr(types.TypeString(v.t, func(pk *types.Package) string { return pk.Name() })), true
	}
	if verb == 'p' {
		// only the identity matters: the code for functions, the variable for pointers
		switch x := v.v.(type) {
		case *Closure:
			if x != nil && x.fn != nil {
				h := fnv.New32a()
				h.Write([]byte(x.fn.RelString(nil)))
				return cstr(fmt.Sprintf("0x1%08x", h.Sum32())), true
			}
		case *Value:
			if x == nil {
				return cstr("%!p(nil)"), true
			}
			k := "ptr-ids"
			m, _ := p.side[k].(map[*Value]int)
			if m == nil {
				m = map[*Value]int{}
				p.side[k] = m
			}
			if _, ok := m[x]; !ok {
				m[x] = len(m)
			}
			return cstr(fmt.Sprintf("0xc%09x", 16*m[x])), true
		}
		return Str{}, false
	}
	if verb == 'v' || verb == 's' {
		if _, isN := v.v.(*Native); !isN {
			for _, m := range []string{"Error", "String"} {
				if f := p.methodByName(v, m); f != nil {
					if pv, ok := v.v.(*Value); ok && pv == nil {
						return cstr("<nil>"), true
					}
					if f.fn != nil && f.fn.Signature.Params().Len() == 0 && f.fn.Signature.Results().Len() == 1 &&
						types.Identical(f.fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
						r := p.callClosure(p.cur.fr, f, []Value{copyVal(v.v)})
						return r.(Str), true
					}
				}
			}
		}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := v.v.(Str)
			switch verb {
			case 'v', 's':
				return s, true
			case 'q':
				if s.pending() {
					return Str{}, false
				}
				if s.conc() {
					return cstr(strconv.Quote(s.s)), true
				}
			case 'x':
				if s.conc() {
					return cstr(fmt.Sprintf("%x", s.s)), true
				}
			}
			return Str{}, false
		case u.Info()&types.IsBoolean != 0:
			if p.branch(v.v.(*Term)) {
				return cstr("true"), true
			}
			return cstr("false"), true
		case u.Info()&types.IsInteger != 0:
			t := v.v.(*Term)
			_, sg, _ := intInfo(u)
			c := p.concTerm(t)
			switch verb {
			case 'v', 'd':
				if sg {
					return cstr(strconv.FormatInt(sx(c, t.w), 10)), true
				}
				return cstr(strconv.FormatUint(c, 10)), true
			case 'x', 'X', 'o', 'b', 'c', 'q', 'U':
				if sg {
					return cstr(fmt.Sprintf("%"+string(verb), sx(c, t.w))), true
				}
				return cstr(fmt.Sprintf("%"+string(verb), c)), true
			}
			return cstr("%!" + string(verb) + "(int)"), true
		case u.Info()&types.IsFloat != 0:
			switch verb {
			case 'v', 'f', 'g', 'e':
				return cstr(fmt.Sprintf("%"+string(verb), v.v.(float64))), true
			}
		}
	case *types.Slice:
		if isByteType(u.Elem()) {
			s := v.v.(Slice)
			if verb == 's' {
				return p.strFromSegs(p.sliceSegs(s), s.len), true
			}
			if verb == 'x' {
				return p.hexOf(p.sliceLit(s)), true
			}
		}
	case *types.Array:
		if isByteType(u.Elem()) && verb == 'x' {
			b := v.v.(*BArr)
			return p.hexOf(p.litBytes(b, p.tc.Int(0), b.size)), true
		}
	}
	return Str{}, false
}

func (p *Path) hexOf(bs []*Term) Str {
	tc := p.tc
	dig := func(n *Term) *Term { // n: 8 bit 0..15
		return tc.Ite(tc.bin(OpULt, n, tc.BV(8, 10)), tc.Add(n, tc.BV(8, '0')), tc.Add(n, tc.BV(8, 'a'-10)))
	}
	var out []*Term
	for _, b := range bs {
		out = append(out, dig(tc.bin(OpLShr, b, tc.BV(8, 4))), dig(tc.bin(OpBAnd, b, tc.BV(8, 15))))
	}
	return p.mkStr(out)
}

func (p *Path) ifaceArgs(v Value) []Iface {
	s := v.(Slice)
	n, o := p.concInt(s.len), p.concInt(s.off)
	var out []Iface
	for i := 0; i < n; i++ {
		out = append(out, s.b.(*GArr).e[o+i].(Iface))
	}
	return out
}

// isSimple: formatting needs no decisions and no calls.
func simpleArg(v Iface) bool {
	if v.t == nil {
		return true
	}
	if _, named := v.t.(*types.Named); named {
		return false
	}
	switch x := v.v.(type) {
	case *Term:
		return x.IsConst()
	case Str:
		return x.conc()
	case float64:
		return true
	}
	return false
}

func (p *Path) sprintf(format Str, args []Iface) Str {
	eager := format.conc()
	for _, a := range args {
		if !simpleArg(a) {
			eager = false
		}
	}
	args = append([]Iface{}, args...)
	f := func(p *Path) Str { return p.doSprintf(format, args) }
	if eager {
		return f(p)
	}
	return Str{lazy: &Lazy{tag: "sprintf", force: f}}
}

func (p *Path) doSprintf(format Str, args []Iface) Str {
	fs := p.goStr(format)
	out := cstr("")
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = p.strConcat(out, cstr(fs[i:]))
			break
		}
		out = p.strConcat(out, cstr(fs[i:i+j]))
		i += j + 1
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			out = p.strConcat(out, cstr("%!(NOVERB)"))
			break
		}
		verb := fs[i]
		flags := fs[st:i]
		i++
		if verb == '%' {
			out = p.strConcat(out, cstr("%"))
			continue
		}
		if ai >= len(args) {
			out = p.strConcat(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		if flags != "" {
			// widths: only for concrete integers and strings
			var gv interface{}
			switch x := a.v.(type) {
			case *Term:
				if w, sg, ok := intInfo(a.t); ok && w > 0 {
					c := p.concTerm(x)
					if sg {
						gv = sx(c, x.w)
					} else {
						gv = c
					}
				}
			case Str:
				if !x.pending() && p.forceStr(x).conc() {
					gv = p.forceStr(x).s
				}
			case float64:
				gv = x
			}
			if gv == nil {
				p.unsupported("format flags " + flags)
			}
			out = p.strConcat(out, cstr(fmt.Sprintf("%"+flags+string(verb), gv)))
			continue
		}
		s, ok := p.fmtVal(verb, a, 0)
		if !ok {
			s = opaque("formatted " + a.t.String())
		}
		out = p.strConcat(out, s)
	}
	if ai < len(args) {
		out = p.strConcat(out, cstr("%!(EXTRA)"))
	}
	return out
}

func regFmt() {
	reg(func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) {
		return p.sprintf(a[0].(Str), p.ifaceArgs(a[1])), true
	}, "fmt.Sprintf")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		args := p.ifaceArgs(a[0])
		ln := fn.Name() == "Sprintln"
		f := func(p *Path) Str {
			out := cstr("")
			for i, x := range args {
				if i > 0 {
					_, s1 := x.v.(Str)
					_, s0 := args[i-1].v.(Str)
					if ln || !s1 && !s0 {
						out = p.strConcat(out, cstr(" "))
					}
				}
				s, ok := p.fmtVal('v', x, 0)
				if !ok {
					s = opaque("formatted value")
				}
				out = p.strConcat(out, s)
			}
			if ln {
				out = p.strConcat(out, cstr("\n"))
			}
			return out
		}
		for _, x := range args {
			if !simpleArg(x) {
				return Str{lazy: &Lazy{tag: "sprint", force: f}}, true
			}
		}
		return f(p), true
	}, "fmt.Sprint", "fmt.Sprintln")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		args := p.ifaceArgs(a[1])
		s := p.sprintf(a[0].(Str), args)
		if f := a[0].(Str); f.conc() && strings.Contains(f.s, "%w") {
			// find the operand
			n := 0
			for i := 0; i+1 < len(f.s); i++ {
				if f.s[i] == '%' {
					if f.s[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[j]) >= 0 {
						j++
					}
					if j < len(f.s) && f.s[j] == 'w' && n < len(args) {
						if p.ex.wrapErrType != nil {
							c := new(Value)
							*c = Struct{s, args[n]}
							return Iface{types.NewPointer(p.ex.wrapErrType), c}, true
						}
					}
					n++
					i = j
				}
			}
		}
		return p.errNew(s), true
	}, "fmt.Errorf")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.zeroResult(fn.Signature), true
	}, "fmt.Println", "fmt.Printf", "fmt.Print")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := a[0].(Iface)
		var s Str
		switch fn.Name() {
		case "Fprintf":
			s = p.sprintf(a[1].(Str), p.ifaceArgs(a[2]))
		default:
			s = cstr("")
			for i, x := range p.ifaceArgs(a[1]) {
				if i > 0 && fn.Name() == "Fprintln" {
					s = p.strConcat(s, cstr(" "))
				}
				r, ok := p.fmtVal('v', x, 0)
				if !ok {
					r = opaque("formatted value")
				}
				s = p.strConcat(s, r)
			}
			if fn.Name() == "Fprintln" {
				s = p.strConcat(s, cstr("\n"))
			}
		}
		if w.t != nil && strings.HasSuffix(w.t.String(), "os.File") {
			return Tuple{p.tc.Int(0), Iface{}}, true
		}
		m := p.methodByName(w, "Write")
		if m == nil {
			p.nilDeref()
		}
		r := p.callClosure(c, m, []Value{w.v, p.strToSlice(s)})
		return r, true
	}, "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint")
	pkgIntrinsics["log"] = func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := fn.Name()
		if strings.HasPrefix(n, "Panic") {
			p.panicStr("log.Panic")
		}
		if strings.HasPrefix(n, "Fatal") {
			p.fatal("log.Fatal called")
		}
		if n == "New" || n == "Default" {
			v := new(Value)
			*v = p.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
			return v, true
		}
		return p.zeroResult(fn.Signature), true
	}
}

// ---------------------------------------------------------------- strings

// bytesOfArg: the bytes of a string or byte slice argument.
func (p *Path) bytesOfArg(v Value) []*Term {
	switch x := v.(type) {
	case Str:
		return p.strBytes(x)
	case Slice:
		return p.sliceLit(x)
	}
	p.unsupported("bytes of argument")
	return nil
}

func (p *Path) indexOf(h, n []*Term) int {
	for i := 0; i+len(n) <= len(h); i++ {
		c := p.tc.True
		for j := range n {
			c = p.tc.And(c, p.tc.Eq(h[i+j], n[j]))
			if c.IsFalse() {
				break
			}
		}
		if p.branch(c) {
			return i
		}
	}
	return -1
}
func (p *Path) lastIndexOf(h, n []*Term) int {
	for i := len(h) - len(n); i >= 0; i-- {
		c := p.tc.True
		for j := range n {
			c = p.tc.And(c, p.tc.Eq(h[i+j], n[j]))
		}
		if p.branch(c) {
			return i
		}
	}
	return -1
}

func anyPending(vs ...Value) bool {
	for _, v := range vs {
		if s, ok := v.(Str); ok && s.pending() {
			return true
		}
	}
	return false
}

func regStrings() {
	idx := func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.tc.Int(int64(p.indexOf(p.bytesOfArg(a[0]), p.bytesOfArg(a[1])))), true
	}
	reg(idx, "strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.tc.Int(int64(p.lastIndexOf(p.bytesOfArg(a[0]), p.bytesOfArg(a[1])))), true
	}, "strings.LastIndex", "bytes.LastIndex")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.tc.Int(int64(p.indexOf(p.bytesOfArg(a[0]), []*Term{a[1].(*Term)}))), true
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.tc.Int(int64(p.lastIndexOf(p.bytesOfArg(a[0]), []*Term{a[1].(*Term)}))), true
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := 0
		for _, b := range p.bytesOfArg(a[0]) {
			if p.branch(p.tc.Eq(b, a[1].(*Term))) {
				n++
			}
		}
		return p.tc.Int(int64(n)), true
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	eq := func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Slice), a[1].(Slice)
		return p.sliceEq(x, y), true
	}
	reg(eq, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := p.bytesOfArg(a[0]), p.bytesOfArg(a[1])
		return p.tc.Int(int64(p.strCompare(p.mkStr(x), p.mkStr(y)))), true
	}, "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := a[0].(*Term)
		return Slice{p.newBArrZero(n), p.tc.Int(0), n, n}, true
	}, "internal/bytealg.MakeNoZero")
	reg(func(p *Path, _ *frame, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true },
		"strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape")
	lazy2 := func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		if !anyPending(a...) {
			return nil, false
		}
		as := append([]Value{}, a...)
		return Str{lazy: &Lazy{tag: fn.Name(), force: func(p *Path) Str {
			for i := range as {
				if s, ok := as[i].(Str); ok {
					as[i] = p.forceStr(s)
				}
			}
			return p.callFn(p.cur.fr, fn, as, nil).(Str)
		}}}, true
	}
	reg(lazy2, "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimSpace", "strings.Replace",
		"strings.ReplaceAll", "strings.ToUpper", "strings.ToLower", "strings.TrimRight", "strings.TrimLeft", "strings.Repeat")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Slice)
		n, o := p.concInt(s.len), p.concInt(s.off)
		var parts []Str
		for i := 0; i < n; i++ {
			parts = append(parts, s.b.(*GArr).e[o+i].(Str))
		}
		out := cstr("")
		for i, x := range parts {
			if i > 0 {
				out = p.strConcat(out, a[1].(Str))
			}
			out = p.strConcat(out, x)
		}
		return out, true
	}, "strings.Join")

	// strings.Builder: {addr, buf}
	bld := func(p *Path, v Value) Struct {
		k := v.(*Value)
		if k == nil {
			p.nilDeref()
		}
		return (*k).(Struct)
	}
	app := func(p *Path, s Struct, add Slice) {
		s[1] = p.appendSlice(s[1].(Slice), add, types.Typ[types.Uint8])
	}
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[1].(Str)
		app(p, bld(p, a[0]), p.strToSlice(x))
		return Tuple{p.strLen(x), Iface{}}, true
	}, "(*strings.Builder).WriteString")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		app(p, bld(p, a[0]), a[1].(Slice))
		return Tuple{a[1].(Slice).len, Iface{}}, true
	}, "(*strings.Builder).Write")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		app(p, bld(p, a[0]), p.bytesToSlice([]*Term{a[1].(*Term)}))
		return Iface{}, true
	}, "(*strings.Builder).WriteByte")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		r := a[1].(*Term)
		if p.branch(p.tc.bin(OpULt, r, p.tc.BV(32, 0x80))) {
			app(p, bld(p, a[0]), p.bytesToSlice([]*Term{p.tc.Extract(r, 7, 0)}))
			return Tuple{p.tc.Int(1), Iface{}}, true
		}
		b := []byte(string(rune(int32(p.concTerm(r)))))
		app(p, bld(p, a[0]), p.goBytesToSlice(b))
		return Tuple{p.tc.Int(int64(len(b))), Iface{}}, true
	}, "(*strings.Builder).WriteRune")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := bld(p, a[0])[1].(Slice)
		return p.strFromSegs(p.sliceSegs(s), s.len), true
	}, "(*strings.Builder).String")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }, "(*strings.Builder).Grow", "(*strings.Builder).copyCheck")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Iface).v.(Slice)
		less := a[1].(*Closure)
		n, o := p.concInt(s.len), p.concInt(s.off)
		g, ok := s.b.(*GArr)
		if n <= 1 {
			return nil, true
		}
		if !ok {
			p.unsupported("sort of bytes")
		}
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				r := p.callClosure(c, less, []Value{p.tc.Int(int64(j)), p.tc.Int(int64(j - 1))})
				if !p.branch(r.(*Term)) {
					break
				}
				g.e[o+j], g.e[o+j-1] = g.e[o+j-1], g.e[o+j]
			}
		}
		return nil, true
	}, "sort.Slice", "sort.SliceStable")
}

func (p *Path) sliceEq(x, y Slice) *Term {
	if !p.branch(p.tc.Eq(x.len, y.len)) {
		return p.tc.False
	}
	a, b := p.sliceSegs(x), p.sliceSegs(y)
	if ropeSame(a, b) {
		return p.tc.True
	}
	xs, ys := p.sliceLit(x), p.sliceLit(y)
	if len(xs) != len(ys) {
		return p.tc.False
	}
	r := p.tc.True
	for i := range xs {
		r = p.tc.And(r, p.tc.Eq(xs[i], ys[i]))
	}
	return r
}

// ---------------------------------------------------------------- reflect

type rval struct {
	t    types.Type
	v    Value
	addr *Value // addressable / settable
}

func kindOf(t types.Type) uint64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func rvOf(v Value) *rval {
	if n, ok := v.(*Native); ok {
		if r, ok := n.v.(*rval); ok {
			return r
		}
	}
	return nil
}

func (p *Path) rvPanic(m string) {
	p.panicStr("reflect: call of reflect.Value." + m + " on zero Value")
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func regReflect() {
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(Iface)
		if i.t == nil {
			return p.zero(fn.Signature.Results().At(0).Type()), true
		}
		return &Native{"reflect.Value", &rval{t: i.t, v: i.v}}, true
	}, "reflect.ValueOf")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}, true
		}
		return Iface{p.ex.rtypeType, &Native{"reflect.Type", i.t}}, true
	}, "reflect.TypeOf")
	deref := func(p *Path, r *rval, m string) Value {
		switch x := r.v.(type) {
		case *Value:
			if x == nil {
				return Struct{(*Value)(nil), (*Value)(nil), p.tc.BV(64, 0)}
			}
			return &Native{"reflect.Value", &rval{t: r.t.Underlying().(*types.Pointer).Elem(), v: copyVal(*x), addr: x}}
		case Iface:
			if x.t == nil {
				return Struct{(*Value)(nil), (*Value)(nil), p.tc.BV(64, 0)}
			}
			return &Native{"reflect.Value", &rval{t: x.t, v: x.v}}
		}
		p.panicStr("reflect: call of reflect.Value." + m + " on " + kindNames[kindOf(r.t)] + " Value")
		return nil
	}
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		r := rvOf(a[0])
		if r == nil || kindOf(r.t) != 22 {
			return a[0], true
		}
		return deref(p, r, "Elem"), true
	}, "reflect.Indirect")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		m := fn.Name()
		r := rvOf(a[0])
		if r == nil {
			switch m {
			case "IsValid":
				return p.tc.False, true
			case "Kind":
				return p.tc.BV(64, 0), true
			case "CanSet", "CanAddr", "CanInterface":
				return p.tc.False, true
			}
			p.rvPanic(m)
		}
		if r.addr != nil {
			r.v = copyVal(*r.addr)
		}
		switch m {
		case "Interface":
			if it, ok := r.v.(Iface); ok {
				if _, isI := r.t.Underlying().(*types.Interface); isI {
					return it, true
				}
			}
			return Iface{r.t, copyVal(r.v)}, true
		case "IsValid", "CanInterface":
			return p.tc.True, true
		case "Kind":
			return p.tc.BV(64, kindOf(r.t)), true
		case "Type":
			return Iface{p.ex.rtypeType, &Native{"reflect.Type", r.t}}, true
		case "CanSet", "CanAddr":
			return p.bool(r.addr != nil), true
		case "Elem":
			return deref(p, r, "Elem"), true
		case "IsNil":
			switch x := r.v.(type) {
			case *Value:
				return p.bool(x == nil), true
			case *MapV:
				return p.bool(x == nil), true
			case Slice:
				return p.bool(x.b == nil), true
			case *Closure:
				return p.bool(x == nil), true
			case *ChanV:
				return p.bool(x == nil), true
			case Iface:
				return p.bool(x.t == nil), true
			}
			p.panicStr("reflect: call of reflect.Value.IsNil on " + kindNames[kindOf(r.t)] + " Value")
		case "String":
			if s, ok := r.v.(Str); ok {
				return s, true
			}
			return cstr("<" + r.t.String() + " Value>"), true
		case "Int", "Uint":
			if t, ok := r.v.(*Term); ok {
				_, sg, _ := intInfo(r.t)
				if sg {
					return p.tc.SExt(t, 64), true
				}
				return p.tc.ZExt(t, 64), true
			}
		case "Bool":
			return r.v, true
		case "Len":
			switch x := r.v.(type) {
			case Str:
				return p.strLen(x), true
			case Slice:
				return x.len, true
			case *MapV:
				if x == nil {
					return p.tc.Int(0), true
				}
				return p.tc.Int(int64(len(x.ents))), true
			}
		case "Set":
			o := rvOf(a[1])
			if r.addr == nil || o == nil {
				p.panicStr("reflect: reflect.Value.Set using unaddressable value")
			}
			storeInto(r.addr, copyVal(o.v))
			return nil, true
		case "IsZero":
			return p.eqVal(r.v, p.zero(r.t)), true
		case "Pointer", "UnsafePointer":
			return p.tc.BV(64, 0x1000), true
		}
		p.unsupported("reflect.Value." + m)
		return nil, true
	}, func() []string {
		var out []string
		for _, m := range strings.Fields("Interface IsValid CanInterface Kind Type CanSet CanAddr Elem IsNil String Int Uint Bool Len Set IsZero Pointer UnsafePointer Field NumField MapKeys MapIndex MethodByName Method Call Index SetString SetInt FieldByName Addr Convert") {
			out = append(out, "(reflect.Value)."+m)
		}
		return out
	}()...)
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		k := p.concTerm(a[0].(*Term))
		if int(k) < len(kindNames) {
			return cstr(kindNames[k]), true
		}
		return cstr("kind" + strconv.Itoa(int(k))), true
	}, "(reflect.Kind).String")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Iface), a[1].(Iface)
		return p.bool(p.deepEq(x, y, 0)), true
	}, "reflect.DeepEqual")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(Iface).v.(*Native).v.(types.Type)
		cell := new(Value)
		*cell = p.zero(t)
		return &Native{"reflect.Value", &rval{t: types.NewPointer(t), v: cell}}, true
	}, "reflect.New")
}

// deepEq decides structural equality, branching on symbolic parts.
func (p *Path) deepEq(x, y Value, d int) bool {
	if d > 30 {
		p.unsupported("deep comparison")
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		if a.t == nil {
			return true
		}
		return types.Identical(a.t, b.t) && p.deepEq(a.v, b.v, d+1)
	case Struct:
		b, ok := y.(Struct)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !p.deepEq(a[i], b[i], d+1) {
				return false
			}
		}
		return true
	case Array:
		b := y.(Array)
		for i := range a {
			if !p.deepEq(a[i], b[i], d+1) {
				return false
			}
		}
		return true
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return p.deepEq(*a, *b, d+1)
	case Slice:
		b := y.(Slice)
		if (a.b == nil) != (b.b == nil) {
			return false
		}
		if _, ok := a.b.(*BArr); ok {
			return p.branch(p.sliceEq(a, b))
		}
		n, m := p.concInt(a.len), p.concInt(b.len)
		if n != m {
			return false
		}
		if n == 0 {
			return true
		}
		ao, bo := p.concInt(a.off), p.concInt(b.off)
		for i := 0; i < n; i++ {
			if !p.deepEq(a.b.(*GArr).e[ao+i], b.b.(*GArr).e[bo+i], d+1) {
				return false
			}
		}
		return true
	case *MapV:
		b, _ := y.(*MapV)
		if a == nil || b == nil {
			return a == b
		}
		if len(a.ents) != len(b.ents) {
			return false
		}
		for _, e := range a.ents {
			f := p.mapFind(b, e.k)
			if f == nil || !p.deepEq(e.v, f.v, d+1) {
				return false
			}
		}
		return true
	case *Closure:
		b, _ := y.(*Closure)
		return a == nil && b == nil
	}
	return p.branch(p.eqVal(x, y))
}

func nativeMethod(n *Native, name string) func(p *Path, args []Value) Value {
	t, ok := n.v.(types.Type)
	if !ok || n.kind != "reflect.Type" {
		return nil
	}
	switch name {
	case "Kind":
		return func(p *Path, a []Value) Value { return p.tc.BV(64, kindOf(t)) }
	case "Name":
		return func(p *Path, a []Value) Value { return cstr(typeName(t)) }
	case "String":
		return func(p *Path, a []Value) Value {
			return cstr(types.TypeString(t, func(pk *types.Package) string { return pk.Name() }))
		}
	case "PkgPath":
		return func(p *Path, a []Value) Value {
			if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil {
				return cstr(nm.Obj().Pkg().Path())
			}
			return cstr("")
		}
	case "Elem":
		return func(p *Path, a []Value) Value {
			var e types.Type
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				e = u.Elem()
			case *types.Slice:
				e = u.Elem()
			case *types.Array:
				e = u.Elem()
			case *types.Map:
				e = u.Elem()
			case *types.Chan:
				e = u.Elem()
			default:
				p.panicStr("reflect: Elem of invalid type")
			}
			return Iface{p.ex.rtypeType, &Native{"reflect.Type", e}}
		}
	case "Comparable":
		return func(p *Path, a []Value) Value { return p.bool(types.Comparable(t)) }
	}
	return func(p *Path, a []Value) Value {
		p.unsupported("reflect.Type." + name)
		return nil
	}
}

// ---------------------------------------------------------------- misc

func regMisc() {
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{p.tc.BV(64, 1), cstr("file.go"), p.tc.Int(1), p.tc.True}, true
	}, "runtime.Caller")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return p.goBytesToSlice([]byte("stack")), true }, "runtime/debug.Stack")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }, "runtime/debug.PrintStack", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }, "runtime.Gosched")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return p.tc.Int(8), true }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return p.tc.Int(10), true }, "runtime.NumGoroutine")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { 
		// time, file and line are placeholders; the cause is real
		cause := a[3].(Str)
		return Str{lazy: &Lazy{tag: "stack trace", force: func(p *Path) Str {
			return p.strConcat(cstr("2026-01-01 00:00:00 | file.go:1 | "), cause)
		}}}, true
	}, "github.com/fwhezfwhez/errorx.PrintStackFormat")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, false }, "errors.New")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		// the only use of reflectlite in errors.Is: is the target comparable
		return nil, false
	}, "errors.Is")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}, true
		}
		return Iface{p.ex.rtypeType, &Native{"reflect.Type", i.t}}, true
	}, "internal/reflectlite.TypeOf")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		bs := p.bytesOfArg(a[0])
		_ = bs
		var gb []byte
		for _, b := range bs {
			gb = append(gb, byte(p.concTerm(b)))
		}
		s := md5sum(gb)
		t := make([]*Term, len(s))
		for i := range s {
			t[i] = p.tc.BV(8, uint64(s[i]))
		}
		return p.newBArrLit(t), true
	}, "crypto/md5.Sum")
	f1 := func(f func(float64) float64) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return f(a[0].(float64)), true }
	}
	reg(f1(math.Floor), "math.Floor", "math.floor")
	reg(f1(math.Trunc), "math.Trunc", "math.trunc")
	reg(f1(math.Abs), "math.Abs")
	reg(f1(math.Sqrt), "math.Sqrt", "math.sqrt")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.tc.BV(64, math.Float64bits(a[0].(float64))), true
	}, "math.Float64bits")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return math.Float64frombits(p.concTerm(a[0].(*Term))), true
	}, "math.Float64frombits")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{(*Value)(nil), p.errNew(cstr("no files here"))}, true
	}, "os.Open", "os.Create")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) { return cstr(""), true }, "os.Getenv")
	pkgIntrinsics["internal/godebug"] = func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.zeroResult(fn.Signature), true
	}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
