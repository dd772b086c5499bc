package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//   *Term                integers and booleans
//   float64              (concrete only)
//   Str                  strings
//   *Value               pointers (nil pointer: (*Value)(nil))
//   BPtr                 pointer to an element of a byte array
//   Struct, Array        aggregates (elements addressable)
//   *BArr                array of bytes ([N]byte), value semantics
//   Slice, *MapV, *ChanV
//   *Closure             functions (nil func: (*Closure)(nil))
//   Iface                interfaces (nil: t==nil)
//   Tuple
//   *Native              engine-side objects (reflect values, ...)
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type BPtr struct {
	a *BArr
	i *Term
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(w *Path, args []Value) Value // engine-made function
	bi   *ssa.Builtin
}

type Iface struct {
	t types.Type
	v Value
}

type GArr struct{ e []Value }

type Slice struct {
	b             interface{} // nil | *BArr | *GArr
	off, len, cap *Term
}

type Native struct {
	kind string
	v    interface{}
}

// Str is a string: concrete (s), symbolic bytes of constant length (sym),
// a rope of possibly symbolic length, or a lazily formatted text (lazy).
type Str struct {
	s    string
	sym  []*Term
	rope *BArr
	lazy *Lazy
}

// Lazy is text whose content is only computed if somebody looks at it.
type Lazy struct {
	force func(p *Path) Str
	done  *Str
	tag   string
}

type MapEntry struct {
	k, v Value
}
type MapV struct {
	ents []*MapEntry
	kt   types.Type
}

func cstr(s string) Str { return Str{s: s} }

func (s Str) conc() bool { return s.sym == nil && s.rope == nil && s.lazy == nil }

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Byte)
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return p.tc.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return cstr("")
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return (*Value)(nil)
		}
		p.unsupported("zero of " + t.String())
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return p.nilSlice()
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			return p.newBArrZero(p.tc.Int(u.Len()))
		}
		if u.Len() > 1<<20 {
			p.unsupported("huge array")
		}
		a := make(Array, u.Len())
		for i := range a {
			a[i] = p.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = p.zero(u.At(i).Type())
		}
		return tp
	}
	p.unsupported("zero of " + t.String())
	return nil
}

func (p *Path) nilSlice() Slice {
	z := p.tc.Int(0)
	return Slice{nil, z, z, z}
}

// copyVal: value semantics for aggregates.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case *BArr:
		if x == nil {
			return x
		}
		return x.clone()
	}
	return v
}

// storeInto assigns v to *dst in place, so that pointers to fields stay valid.
func storeInto(dst *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	case *BArr:
		if d, ok := (*dst).(*BArr); ok && d != nil && x != nil {
			c := x.clone()
			d.segs, d.size = c.segs, c.size
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

// ---- equality

// eqVal returns a boolean term for x == y (same static type).
func (p *Path) eqVal(x, y Value) *Term {
	tc := p.tc
	switch a := x.(type) {
	case *Term:
		return tc.Eq(a, y.(*Term))
	case float64:
		return tc.Bool(a == y.(float64))
	case Str:
		return p.strEq(a, y.(Str))
	case *Value:
		switch b := y.(type) {
		case *Value:
			return tc.Bool(a == b)
		}
		return tc.False
	case BPtr:
		b, ok := y.(BPtr)
		if !ok || a.a != b.a {
			return tc.False
		}
		return tc.Eq(a.i, b.i)
	case Struct:
		b, ok := y.(Struct)
		if !ok {
			return tc.False
		}
		r := tc.True
		for i := range a {
			r = tc.And(r, p.eqVal(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := tc.True
		for i := range a {
			r = tc.And(r, p.eqVal(a[i], b[i]))
		}
		return r
	case *BArr:
		b := y.(*BArr)
		xs := p.litBytes(a, tc.Int(0), a.size)
		ys := p.litBytes(b, tc.Int(0), b.size)
		r := tc.Bool(len(xs) == len(ys))
		for i := range xs {
			r = tc.And(r, tc.Eq(xs[i], ys[i]))
		}
		return r
	case Slice:
		b := y.(Slice)
		return tc.Bool(a.b == nil && b.b == nil)
	case *MapV:
		b, _ := y.(*MapV)
		return tc.Bool(a == b)
	case *ChanV:
		b, _ := y.(*ChanV)
		return tc.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return tc.Bool(a == b)
	case *Native:
		b, ok := y.(*Native)
		if !ok {
			return tc.False
		}
		if a == b {
			return tc.True
		}
		if ta, ok := a.v.(types.Type); ok {
			if tb, ok := b.v.(types.Type); ok {
				return tc.Bool(types.Identical(ta, tb))
			}
		}
		return tc.False
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return tc.Bool(a.t == nil && b.t == nil)
		}
		if a.t != b.t && !types.Identical(a.t, b.t) {
			return tc.False
		}
		if !types.Comparable(a.t) {
			p.panicRuntime("comparing uncomparable type " + a.t.String())
		}
		return p.eqVal(a.v, b.v)
	case nil:
		return tc.Bool(y == nil)
	}
	p.unsupported(fmt.Sprintf("equality of %T", x))
	return nil
}

func (p *Path) strLen(s Str) *Term {
	s = p.forceStr(s)
	if s.rope != nil {
		return s.rope.size
	}
	if s.sym != nil {
		return p.tc.Int(int64(len(s.sym)))
	}
	return p.tc.Int(int64(len(s.s)))
}

func (p *Path) forceStr(s Str) Str {
	for s.lazy != nil {
		if s.lazy.done == nil {
			r := s.lazy.force(p)
			s.lazy.done = &r
		}
		s = *s.lazy.done
	}
	return s
}

// strBytes gives the bytes of a string of constant length.
func (p *Path) strBytes(s Str) []*Term {
	s = p.forceStr(s)
	if s.rope != nil {
		return p.litBytes(s.rope, p.tc.Int(0), s.rope.size)
	}
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = p.tc.BV(8, uint64(s.s[i]))
	}
	return r
}

func (p *Path) mkStr(b []*Term) Str {
	if len(b) == 0 {
		return cstr("")
	}
	for _, t := range b {
		if !t.IsConst() {
			return Str{sym: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.c)
	}
	return cstr(string(bs))
}

func (p *Path) strEq(a, b Str) *Term {
	if a.lazy != nil && b.lazy != nil && a.lazy == b.lazy {
		return p.tc.True
	}
	a, b = p.forceStr(a), p.forceStr(b)
	if a.conc() && b.conc() {
		return p.tc.Bool(a.s == b.s)
	}
	la, lb := p.strLen(a), p.strLen(b)
	if !p.branch(p.tc.Eq(la, lb)) {
		return p.tc.False
	}
	if a.rope != nil || b.rope != nil {
		if la.IsConst() || lb.IsConst() {
			if a.rope != nil && la.IsConst() == false {
				a = Str{rope: a.rope.withSize(lb)}
			}
			if b.rope != nil && lb.IsConst() == false {
				b = Str{rope: b.rope.withSize(la)}
			}
		}
		if a.rope != nil && b.rope != nil && ropeSame(a.rope.segs, b.rope.segs) {
			return p.tc.True
		}
	}
	xs, ys := p.strBytes(a), p.strBytes(b)
	if len(xs) != len(ys) {
		return p.tc.False
	}
	r := p.tc.True
	for i := range xs {
		r = p.tc.And(r, p.tc.Eq(xs[i], ys[i]))
	}
	return r
}

func (p *Path) strConcat(a, b Str) Str {
	if a.conc() && b.conc() {
		return cstr(a.s + b.s)
	}
	if a.lazy != nil && a.lazy.done == nil || b.lazy != nil && b.lazy.done == nil {
		return Str{lazy: &Lazy{tag: "cat", force: func(p *Path) Str { return p.strConcat(p.forceStr(a), p.forceStr(b)) }}}
	}
	a, b = p.forceStr(a), p.forceStr(b)
	if a.rope == nil && b.rope == nil {
		return p.mkStr(append(append([]*Term{}, p.strBytes(a)...), p.strBytes(b)...))
	}
	r := &BArr{size: p.tc.Add(p.strLen(a), p.strLen(b))}
	r.segs = append(append([]Seg{}, p.strSegs(a)...), p.strSegs(b)...)
	return Str{rope: r}
}

func (p *Path) strSegs(s Str) []Seg {
	s = p.forceStr(s)
	if s.rope != nil {
		return s.rope.clone().segs
	}
	b := p.strBytes(s)
	if len(b) == 0 {
		return nil
	}
	return []Seg{{n: p.tc.Int(int64(len(b))), lit: append([]*Term{}, b...)}}
}

// strSlice s[lo:hi] (bounds already checked)
func (p *Path) strSlice(s Str, lo, hi *Term) Str {
	s = p.forceStr(s)
	if s.rope != nil {
		n := p.tc.Sub(hi, lo)
		segs := p.extract(s.rope, lo, n)
		return p.strFromSegs(segs, n)
	}
	l, h := p.concInt(lo), p.concInt(hi)
	if s.sym != nil {
		return p.mkStr(s.sym[l:h])
	}
	return cstr(s.s[l:h])
}

func (p *Path) strFromSegs(segs []Seg, n *Term) Str {
	if n.IsConst() {
		all := true
		var out []*Term
		for _, s := range segs {
			if !s.n.IsConst() || s.n.c > 4096 {
				all = false
				break
			}
			out = append(out, p.segBytes(s)...)
		}
		if all {
			return p.mkStr(out)
		}
	}
	return Str{rope: &BArr{size: n, segs: segs}}
}

// index s[i] (bounds already checked)
func (p *Path) strIndex(s Str, i *Term) *Term {
	s = p.forceStr(s)
	if s.rope != nil {
		return p.readByte(s.rope, i)
	}
	if i.IsConst() {
		if s.sym != nil {
			return s.sym[i.c]
		}
		return p.tc.BV(8, uint64(s.s[i.c]))
	}
	return p.pick(p.strBytes(s), i)
}

// pick selects bs[i] for a symbolic in-range i.
func (p *Path) pick(bs []*Term, i *Term) *Term {
	if len(bs) > 256 {
		k := p.concInt(i)
		return bs[k]
	}
	r := bs[len(bs)-1]
	for k := len(bs) - 2; k >= 0; k-- {
		r = p.tc.Ite(p.tc.Eq(i, p.tc.Int(int64(k))), bs[k], r)
	}
	return r
}

func (p *Path) goStr(s Str) string {
	s = p.forceStr(s)
	if s.conc() {
		return s.s
	}
	bs := p.strBytes(s)
	out := make([]byte, len(bs))
	for i, t := range bs {
		out[i] = byte(p.concTerm(t))
	}
	return string(out)
}
