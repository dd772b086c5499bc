package main

import "fmt"

// Seg is a run of bytes inside a byte array: literal terms, zeros, or a window
// of an uninterpreted byte source.
type Seg struct {
	n    *Term
	lit  []*Term
	src  string
	off  *Term
	zero bool
}

// BArr is a byte array of possibly symbolic size.
type BArr struct {
	segs []Seg
	size *Term
}

func (a *BArr) clone() *BArr {
	n := &BArr{size: a.size, segs: make([]Seg, len(a.segs))}
	for i, s := range a.segs {
		if s.lit != nil {
			s.lit = append([]*Term(nil), s.lit...)
		}
		n.segs[i] = s
	}
	return n
}
func (a *BArr) withSize(n *Term) *BArr {
	c := a.clone()
	c.size = n
	return c
}

func (p *Path) newBArrZero(n *Term) *BArr {
	a := &BArr{size: n}
	if n.IsConst() {
		if n.c == 0 {
			return a
		}
		if n.c <= 64 {
			l := make([]*Term, n.c)
			z := p.tc.BV(8, 0)
			for i := range l {
				l[i] = z
			}
			a.segs = []Seg{{n: n, lit: l}}
			return a
		}
	}
	a.segs = []Seg{{n: n, zero: true}}
	return a
}
func (p *Path) newBArrLit(b []*Term) *BArr {
	a := &BArr{size: p.tc.Int(int64(len(b)))}
	if len(b) > 0 {
		a.segs = []Seg{{n: a.size, lit: append([]*Term(nil), b...)}}
	}
	return a
}

func ropeSame(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.n != y.n || x.src != y.src || x.off != y.off || x.zero != y.zero || len(x.lit) != len(y.lit) {
			return false
		}
		for j := range x.lit {
			if x.lit[j] != y.lit[j] {
				return false
			}
		}
	}
	return true
}

// segAt: byte at local offset i of s.
func (p *Path) segAt(s Seg, i *Term) *Term {
	switch {
	case s.zero:
		return p.tc.BV(8, 0)
	case s.lit != nil:
		if i.IsConst() {
			return s.lit[i.c]
		}
		return p.pick(s.lit, i)
	}
	return p.tc.Sel(s.src, p.tc.Add(s.off, i))
}

func (p *Path) segBytes(s Seg) []*Term {
	n := p.concInt(s.n)
	r := make([]*Term, n)
	for i := range r {
		r[i] = p.segAt(s, p.tc.Int(int64(i)))
	}
	return r
}

// splitSeg cuts s at local offset k (0<=k<=n known to hold).
func (p *Path) splitSeg(s Seg, k *Term) (Seg, Seg) {
	tc := p.tc
	switch {
	case s.lit != nil:
		if !k.IsConst() {
			// few possibilities: fork
			kk := p.concInt(k)
			k = tc.Int(int64(kk))
		}
		c := int(k.c)
		l := Seg{n: tc.Int(int64(c)), lit: append([]*Term(nil), s.lit[:c]...)}
		r := Seg{n: tc.Int(int64(len(s.lit) - c)), lit: append([]*Term(nil), s.lit[c:]...)}
		if c == 0 {
			l = Seg{n: tc.Int(0), zero: true}
		}
		if c == len(s.lit) {
			r = Seg{n: tc.Int(0), zero: true}
		}
		return l, r
	case s.zero:
		return Seg{n: k, zero: true}, Seg{n: tc.Sub(s.n, k), zero: true}
	}
	return Seg{n: k, src: s.src, off: s.off}, Seg{n: tc.Sub(s.n, k), src: s.src, off: tc.Add(s.off, k)}
}

func dropEmpty(segs []Seg) []Seg {
	out := segs[:0:0]
	for _, s := range segs {
		if s.n.IsConst() && s.n.c == 0 {
			continue
		}
		out = append(out, s)
	}
	return out
}

// cut splits segs at position pos: segs[:i] cover exactly pos bytes.
func (p *Path) cut(segs []Seg, pos *Term) ([]Seg, []Seg) {
	tc := p.tc
	acc := tc.Int(0)
	if pos == acc {
		return nil, segs
	}
	for i, s := range segs {
		acc = tc.Add(acc, s.n)
		if acc == pos {
			return segs[:i+1 : i+1], segs[i+1:]
		}
	}
	acc = tc.Int(0)
	for i, s := range segs {
		end := tc.Add(acc, s.n)
		if i == len(segs)-1 || p.branch(tc.bin(OpSLe, pos, end)) {
			l, r := p.splitSeg(s, tc.Sub(pos, acc))
			a := append(append([]Seg(nil), segs[:i]...), l)
			b := append([]Seg{r}, segs[i+1:]...)
			return dropEmpty(a), dropEmpty(b)
		}
		acc = end
	}
	return segs, nil
}

// extract copies n bytes at off.
func (p *Path) extract(a *BArr, off, n *Term) []Seg {
	if n.IsConst() && n.c == 0 {
		return nil
	}
	_, r := p.cut(a.segs, off)
	l, _ := p.cut(r, n)
	out := make([]Seg, len(l))
	for i, s := range l {
		if s.lit != nil {
			s.lit = append([]*Term(nil), s.lit...)
		}
		out[i] = s
	}
	return out
}

// replace overwrites n bytes at off by segs (total length n).
func (p *Path) replace(a *BArr, off, n *Term, segs []Seg) {
	if n.IsConst() && n.c == 0 {
		return
	}
	l, r := p.cut(a.segs, off)
	_, r2 := p.cut(r, n)
	out := append(append([]Seg(nil), l...), segs...)
	out = append(out, r2...)
	a.segs = p.coalesce(out)
}

func (p *Path) coalesce(in []Seg) []Seg {
	var out []Seg
	for _, s := range in {
		if s.n.IsConst() && s.n.c == 0 {
			continue
		}
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.lit != nil && s.lit != nil && len(l.lit)+len(s.lit) <= 8192 {
				nl := make([]*Term, 0, len(l.lit)+len(s.lit))
				nl = append(append(nl, l.lit...), s.lit...)
				*l = Seg{n: p.tc.Int(int64(len(nl))), lit: nl}
				continue
			}
			if l.zero && s.zero {
				l.n = p.tc.Add(l.n, s.n)
				continue
			}
			if l.src != "" && l.src == s.src && p.tc.Add(l.off, l.n) == s.off {
				l.n = p.tc.Add(l.n, s.n)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// find locates position i (0<=i<size): segment index and local offset.
func (p *Path) find(a *BArr, i *Term) (int, *Term) {
	tc := p.tc
	acc := tc.Int(0)
	for k, s := range a.segs {
		end := tc.Add(acc, s.n)
		if k == len(a.segs)-1 || p.branch(tc.bin(OpSLt, i, end)) {
			return k, tc.Sub(i, acc)
		}
		acc = end
	}
	panic(engineError(fmt.Sprintf("find in empty byte array (size %v)", a.size.ref())))
}

func (p *Path) readByte(a *BArr, i *Term) *Term {
	k, l := p.find(a, i)
	return p.segAt(a.segs[k], l)
}

func (p *Path) writeByte(a *BArr, i *Term, v *Term) {
	k, l := p.find(a, i)
	s := a.segs[k]
	if s.lit != nil {
		if !l.IsConst() {
			if len(s.lit) > 64 {
				l = p.tc.Int(int64(p.concInt(l)))
			} else {
				for j := range s.lit {
					s.lit[j] = p.tc.Ite(p.tc.Eq(l, p.tc.Int(int64(j))), v, s.lit[j])
				}
				return
			}
		}
		s.lit[l.c] = v
		return
	}
	if s.zero && s.n.IsConst() && s.n.c <= 8192 && l.IsConst() {
		lit := make([]*Term, s.n.c)
		z := p.tc.BV(8, 0)
		for j := range lit {
			lit[j] = z
		}
		lit[l.c] = v
		a.segs[k] = Seg{n: s.n, lit: lit}
		return
	}
	x, r := p.splitSeg(s, l)
	_, y := p.splitSeg(r, p.tc.Int(1))
	mid := Seg{n: p.tc.Int(1), lit: []*Term{v}}
	out := append(append([]Seg(nil), a.segs[:k]...), x, mid, y)
	out = append(out, a.segs[k+1:]...)
	a.segs = p.coalesce(out)
}

// litBytes returns n bytes at off as terms; n is made constant.
func (p *Path) litBytes(a *BArr, off, n *Term) []*Term {
	c := p.concInt(n)
	if c > 1<<20 {
		p.unsupported("large byte range made explicit")
	}
	var out []*Term
	if c == 0 {
		return nil
	}
	for _, s := range p.extract(a, off, p.tc.Int(int64(c))) {
		out = append(out, p.segBytes(s)...)
	}
	return out
}

// sliceSegs: contents of a byte slice as segments.
func (p *Path) sliceSegs(s Slice) []Seg {
	switch b := s.b.(type) {
	case nil:
		return nil
	case *BArr:
		return p.extract(b, s.off, s.len)
	case *GArr:
		o, n := p.concInt(s.off), p.concInt(s.len)
		var lit []*Term
		for i := o; i < o+n; i++ {
			lit = append(lit, b.e[i].(*Term))
		}
		if n == 0 {
			return nil
		}
		return []Seg{{n: p.tc.Int(int64(n)), lit: lit}}
	}
	panic("sliceSegs")
}

// sliceLit: bytes of a byte slice as terms (length made constant).
func (p *Path) sliceLit(s Slice) []*Term {
	switch b := s.b.(type) {
	case nil:
		return nil
	case *BArr:
		return p.litBytes(b, s.off, s.len)
	}
	var out []*Term
	for _, g := range p.sliceSegs(s) {
		out = append(out, p.segBytes(g)...)
	}
	return out
}

func (p *Path) bytesToSlice(b []*Term) Slice {
	a := p.newBArrLit(b)
	return Slice{a, p.tc.Int(0), a.size, a.size}
}
func (p *Path) goBytesToSlice(b []byte) Slice {
	t := make([]*Term, len(b))
	for i := range b {
		t[i] = p.tc.BV(8, uint64(b[i]))
	}
	return p.bytesToSlice(t)
}
