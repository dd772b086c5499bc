package main

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func md5sum(b []byte) [16]byte { return md5.Sum(b) }

const rtPath = modPath + "/zzvrt."

func (p *Path) uniq(name string) string {
	p.cnt[name]++
	if p.cnt[name] == 1 {
		return name
	}
	return name + "#" + strconv.Itoa(p.cnt[name])
}

func (p *Path) newInput(name string, w uint8) *Term {
	u := p.uniq(name)
	var t *Term
	if w == 0 {
		b := p.tc.Var(u, 8)
		p.inputs = append(p.inputs, input{name: u, t: b, w: 8})
		return p.tc.Eq(p.tc.Extract(b, 0, 0), p.tc.BV(1, 1))
	}
	t = p.tc.Var(u, w)
	p.inputs = append(p.inputs, input{name: u, t: t, w: w})
	return t
}

func (p *Path) bytesInput(name string, n int) []*Term {
	u := p.uniq(name)
	out := make([]*Term, n)
	for i := range out {
		nm := u + "[" + strconv.Itoa(i) + "]"
		out[i] = p.tc.Var(nm, 8)
		p.inputs = append(p.inputs, input{name: nm, t: out[i], w: 8})
	}
	return out
}

// assertT checks c on every value of the inputs reaching this point.
func (p *Path) assertT(c *Term, label string) {
	p.asserts++
	if c.IsTrue() || p.sol.pcSet[c] {
		p.triv++
		return
	}
	if p.pos >= len(p.prefix) {
		r, m := p.sol.check([]*Term{p.tc.Not(c)}, true)
		switch r {
		case Sat:
			p.addViolation("assert", label, m)
			if p.model != nil && p.evalM(c) != 1 {
				p.setModel(nil)
			}
		case Unknown:
			p.ex.noteUnknown(p, c)
		case Unsat:
			p.discharged++
		}
	}
	if c.IsFalse() {
		p.end("violation", "assertion failed: "+label)
	}
	p.assume(c)
}

func regRT() {
	r := func(name string, f func(p *Path, a []Value) Value) {
		intrinsics[rtPath+name] = func(p *Path, _ *frame, _ *ssa.Function, a []Value) (Value, bool) { return f(p, a), true }
	}
	nm := func(p *Path, v Value) string { return p.goStr(v.(Str)) }
	scal := func(w uint8) func(p *Path, a []Value) Value {
		return func(p *Path, a []Value) Value { return p.newInput(nm(p, a[0]), w) }
	}
	r("Bool", scal(0))
	r("U8", scal(8))
	r("U16", scal(16))
	r("U32", scal(32))
	r("I32", scal(32))
	r("I64", scal(64))
	r("AnyInt", scal(64))
	r("Int", func(p *Path, a []Value) Value {
		t := p.newInput(nm(p, a[0]), 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo == hi {
			p.assume(p.tc.Eq(t, lo))
			return lo
		}
		p.assumeFresh(p.tc.bin(OpSLe, lo, t))
		p.assumeFresh(p.tc.bin(OpSLe, t, hi))
		return t
	})
	r("Choose", func(p *Path, a []Value) Value {
		n := p.concInt(a[1].(*Term))
		t := p.newInput(nm(p, a[0]), 64)
		if n <= 1 {
			p.assume(p.tc.Eq(t, p.tc.Int(0)))
			return p.tc.Int(0)
		}
		p.assumeFresh(p.tc.bin(OpSLe, p.tc.Int(0), t))
		p.assumeFresh(p.tc.bin(OpSLe, t, p.tc.Int(int64(n-1))))
		return t
	})
	r("Bytes", func(p *Path, a []Value) Value {
		return p.bytesToSlice(p.bytesInput(nm(p, a[0]), p.concInt(a[1].(*Term))))
	})
	r("Str", func(p *Path, a []Value) Value {
		return p.mkStr(p.bytesInput(nm(p, a[0]), p.concInt(a[1].(*Term))))
	})
	r("Big", func(p *Path, a []Value) Value {
		u := p.uniq(nm(p, a[0]))
		n := a[1].(*Term)
		p.inputs = append(p.inputs, input{name: u, src: u})
		b := &BArr{size: n}
		if !(n.IsConst() && n.c == 0) {
			b.segs = []Seg{{n: n, src: u, off: p.tc.Int(0)}}
		}
		return Slice{b, p.tc.Int(0), n, n}
	})
	r("Assume", func(p *Path, a []Value) Value {
		c := a[0].(*Term)
		if c.IsTrue() {
			return nil
		}
		p.assumeFresh(c)
		return nil
	})
	r("Assert", func(p *Path, a []Value) Value {
		p.assertT(a[0].(*Term), nm(p, a[1]))
		return nil
	})
	r("Fail", func(p *Path, a []Value) Value {
		p.assertT(p.tc.False, nm(p, a[0]))
		return nil
	})
	r("AssertBytesEq", func(p *Path, a []Value) Value {
		p.assertBytes(a[0].(Slice), a[1].(Slice), nm(p, a[2]))
		return nil
	})
	r("Reach", func(p *Path, a []Value) Value {
		p.reached = append(p.reached, nm(p, a[0]))
		return nil
	})
	r("ObsInt", func(p *Path, a []Value) Value {
		p.obs = append(p.obs, obsRec{label: nm(p, a[0]), kind: 'i', t: a[1].(*Term)})
		return nil
	})
	r("ObsStr", func(p *Path, a []Value) Value {
		s := a[1].(Str)
		p.obs = append(p.obs, obsRec{label: nm(p, a[0]), kind: 's', s: s})
		return nil
	})
	r("ObsBytes", func(p *Path, a []Value) Value {
		s := a[1].(Slice)
		p.obs = append(p.obs, obsRec{label: nm(p, a[0]), kind: 'b', segs: p.sliceSegs(s), n: s.len})
		return nil
	})
	r("Idle", func(p *Path, a []Value) Value {
		p.idle()
		return nil
	})
	r("IsEngine", func(p *Path, a []Value) Value { return p.tc.True })
	r("Tier", func(p *Path, a []Value) Value { return p.tc.Int(int64(p.ex.tier)) })
	r("Opt", func(p *Path, a []Value) Value {
		v := p.concInt(a[1].(*Term))
		switch o := nm(p, a[0]); o {
		case "maxConc":
			p.cfg.maxConc = v
		case "maxTimers":
			p.cfg.maxTimers = v
		case "maxSteps":
			p.maxSteps = v
		case "fifoTimers":
			p.cfg.fifoTimers = v != 0
		case "insertOrder":
			p.cfg.insertOrder = v != 0
		case "noBubble":
			p.noBubble = v != 0
		default:
			panic(engineError("unknown option " + o))
		}
		return nil
	})
	r("Explore", func(p *Path, a []Value) Value { p.explore = p.concInt(a[0].(*Term)); return nil })
	r("Races", func(p *Path, a []Value) Value {
		if p.race == nil {
			p.race = newRace(p)
		}
		return nil
	})
	r("Sprint", func(p *Path, a []Value) Value { return opaque("Sprint") })
	r("Y", func(p *Path, a []Value) Value { p.yieldPoint(); return nil })
	r("Par", func(p *Path, a []Value) Value {
		s := a[0].(Slice)
		n, o := p.concInt(s.len), p.concInt(s.off)
		left := n
		me := p.cur
		p.noBubble = true
		var gs []*G
		for i := 0; i < n; i++ {
			f := s.b.(*GArr).e[o+i].(*Closure)
			i := i
			g := p.newG(func() {
				p.callClosure(nil, f, nil)
				p.recordSwitch(p.cur, -1)
				left--
				if p.race != nil {
					p.race.acquire(me, p.cur.vc)
				}
				if left == 0 {
					p.makeReady(me)
				}
			}, fmt.Sprintf("par%d", i))
			if p.race != nil {
				p.race.fork(p.cur, g)
			}
			p.parG[g] = i
			gs = append(gs, g)
		}
		for _, g := range gs {
			p.makeReady(g)
		}
		for left > 0 {
			p.park("Par")
		}
		return nil
	})
}

// assumeFresh adds an assumption about inputs; an infeasible path ends here.
func (p *Path) assumeFresh(c *Term) {
	if p.pos >= len(p.prefix) && p.model != nil && p.evalM(c) != 1 {
		p.setModel(nil)
	}
	p.assume(c)
	if p.pos >= len(p.prefix) && !p.ensureModel() {
		p.end("assume", "")
	}
}

func (p *Path) idle() {
	g := p.cur
	if len(p.runq) == 0 {
		return
	}
	p.idleq = append(p.idleq, g)
	g.why = "idle"
	p.switchFrom(g)
	g.why = ""
}

func (p *Path) assertBytes(x, y Slice, label string) {
	xs, ys := p.sliceSegs(x), p.sliceSegs(y)
	p.assertT(p.tc.Eq(x.len, y.len), label)
	if x.len.IsConst() && x.len.c == 0 || y.len.IsConst() && y.len.c == 0 {
		return
	}
	xs, ys = p.coalesce(xs), p.coalesce(ys)
	if ropeSame(xs, ys) {
		p.asserts++
		p.triv++
		return
	}
	if x.len.IsConst() && x.len.c <= 512 || y.len.IsConst() && y.len.c <= 512 ||
		x.len.IsConst() && y.len.IsConst() && x.len.c <= 1<<17 && allLit(xs) && allLit(ys) {
		xb := p.litBytes(&BArr{segs: xs, size: x.len}, p.tc.Int(0), x.len)
		yb := p.litBytes(&BArr{segs: ys, size: y.len}, p.tc.Int(0), y.len)
		c := p.tc.True
		for i := range xb {
			if xb[i] != yb[i] {
				c = p.tc.And(c, p.tc.Eq(xb[i], yb[i]))
			}
		}
		p.assertT(c, label)
		return
	}
	// one arbitrary position
	k := p.tc.Var(p.uniq("$k"), 64)
	p.assume(p.tc.bin(OpSLe, p.tc.Int(0), k))
	p.assumeFresh(p.tc.bin(OpSLt, k, x.len))
	xb := p.readByte(&BArr{segs: xs, size: x.len}, k)
	yb := p.readByte(&BArr{segs: ys, size: y.len}, k)
	p.assertT(p.tc.Eq(xb, yb), label)
}

func allLit(segs []Seg) bool {
	for _, s := range segs {
		if s.lit == nil && !s.zero {
			return false
		}
	}
	return true
}

// obsText renders the observations of a path under a model.
func (p *Path) obsText(m *Model) (out []string, ok bool) {
	memo := map[*Term]uint64{}
	ok = true
	bytesOf := func(segs []Seg) []byte {
		var b []byte
		for _, s := range segs {
			n := int64(m.eval(s.n, memo))
			if n > 1<<16 {
				return b
			}
			for i := int64(0); i < n; i++ {
				switch {
				case s.zero:
					b = append(b, 0)
				case s.lit != nil:
					b = append(b, byte(m.eval(s.lit[i], memo)))
				default:
					idx := m.eval(s.off, memo) + uint64(i)
					mm := m.sels[s.src]
					if v, in := mm[idx]; in {
						b = append(b, byte(v))
					} else {
						b = append(b, 0x30+byte(idx%61))
					}
				}
			}
		}
		return b
	}
	for _, o := range p.obs {
		switch o.kind {
		case 'i':
			out = append(out, o.label+"="+strconv.FormatInt(sx(m.eval(o.t, memo), o.t.w), 10))
		case 's':
			s := o.s
			for s.lazy != nil && s.lazy.done != nil {
				s = *s.lazy.done
			}
			if s.lazy != nil {
				out = append(out, o.label+"=?")
				continue
			}
			var b []byte
			switch {
			case s.rope != nil:
				b = bytesOf(s.rope.segs)
			case s.sym != nil:
				for _, t := range s.sym {
					b = append(b, byte(m.eval(t, memo)))
				}
			default:
				b = []byte(s.s)
			}
			out = append(out, o.label+"="+strconv.Quote(string(b)))
		case 'b':
			n := sx(m.eval(o.n, memo), 64)
			if n > 64 {
				out = append(out, o.label+"=len"+strconv.FormatInt(n, 10))
				continue
			}
			out = append(out, o.label+"="+hex.EncodeToString(bytesOf(o.segs)))
		}
	}
	return out, ok
}

func sortedStr(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
