package main

// Models of the serialisation libraries.  encoding/json is modelled on the
// wire level (bytes may be symbolic); xml, yaml, toml and protobuf by
// contract: equal values encode to equal byte strings, and decoding an
// encoding gives the encoded value back.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jsonFail struct{ e Iface }

func (p *Path) jerr(msg string) Iface { return p.errNew(cstr("json: " + msg)) }

func (p *Path) lit(s string) []*Term {
	r := make([]*Term, len(s))
	for i := range r {
		r[i] = p.tc.BV(8, uint64(s[i]))
	}
	return r
}

func (p *Path) isB(b *Term, c byte) bool { return p.branch(p.tc.Eq(b, p.tc.BV(8, uint64(c)))) }
func (p *Path) inRange(b *Term, lo, hi byte) bool {
	if b.IsConst() {
		return byte(b.c) >= lo && byte(b.c) <= hi
	}
	return p.branch(p.tc.And(p.tc.bin(OpULe, p.tc.BV(8, uint64(lo)), b), p.tc.bin(OpULe, b, p.tc.BV(8, uint64(hi)))))
}

// pin fixes a term to the value it has in the current model; the rest of its
// values is outside the explored space (recorded).
func (p *Path) pin(t *Term, why string) uint64 {
	if t.IsConst() {
		return t.c
	}
	var v uint64
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.k != 'v' {
			p.end("engine", fmt.Sprintf("replay divergence: pin vs %c", d.k))
		}
		p.pos++
		p.dec = append(p.dec, d)
		v = d.v
	} else {
		if !p.ensureModel() {
			p.end("assume", "infeasible")
		}
		v = p.evalM(t)
		p.dec = append(p.dec, Dec{'v', v})
		p.pos++
	}
	p.narrow(why)
	p.assume(p.tc.Eq(t, p.tc.BV(t.w, v)))
	return v
}
func (p *Path) narrow(why string) {
	p.narrowed = true
	for _, n := range p.notes {
		if n == why {
			return
		}
	}
	p.notes = append(p.notes, why)
}

func (p *Path) jsonStr(bs []*Term) []*Term {
	out := p.lit(`"`)
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if p.branch(p.tc.bin(OpULe, p.tc.BV(8, 0x80), b)) {
			// whole rest made concrete
			var raw []byte
			for _, c := range bs[i:] {
				raw = append(raw, byte(p.pin(c, "non-ASCII text in JSON strings: one representative")))
			}
			q := jsonQuote(string(raw))
			return append(out, p.lit(q[1:])...)
		}
		switch {
		case p.isB(b, '"'):
			out = append(out, p.lit(`\"`)...)
		case p.isB(b, '\\'):
			out = append(out, p.lit(`\\`)...)
		case p.inRange(b, 0, 0x1f):
			switch {
			case p.isB(b, '\n'):
				out = append(out, p.lit(`\n`)...)
			case p.isB(b, '\r'):
				out = append(out, p.lit(`\r`)...)
			case p.isB(b, '\t'):
				out = append(out, p.lit(`\t`)...)
			case p.isB(b, '\b'):
				out = append(out, p.lit(`\b`)...)
			case p.isB(b, '\f'):
				out = append(out, p.lit(`\f`)...)
			default:
				out = append(append(out, p.lit(`\u00`)...), p.hexDigit(b, 7, 4), p.hexDigit(b, 3, 0))
			}
		case p.branch(p.tc.Or(p.tc.Eq(b, p.tc.BV(8, '<')), p.tc.Or(p.tc.Eq(b, p.tc.BV(8, '>')), p.tc.Eq(b, p.tc.BV(8, '&'))))):
			out = append(append(out, p.lit(`\u00`)...), p.hexDigit(b, 7, 4), p.hexDigit(b, 3, 0))
		default:
			out = append(out, b)
		}
	}
	return append(out, p.lit(`"`)...)
}

func (p *Path) hexDigit(b *Term, hi, lo uint8) *Term {
	n := p.tc.ZExt(p.tc.Extract(b, hi, lo), 8)
	return p.tc.Ite(p.tc.bin(OpULt, n, p.tc.BV(8, 10)), p.tc.Add(n, p.tc.BV(8, '0')), p.tc.Add(n, p.tc.BV(8, 'a'-10)))
}

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	str       bool
}

func jsonFields(st *types.Struct, pre []int) ([]jfield, string) {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Embedded() && parts[0] == "" {
			if s, ok := f.Type().Underlying().(*types.Struct); ok {
				sub, e := jsonFields(s, append(append([]int{}, pre...), i))
				if e != "" {
					return nil, e
				}
				out = append(out, sub...)
				continue
			}
			if !f.Exported() {
				continue
			}
			return nil, "embedded " + f.Name()
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), idx: append(append([]int{}, pre...), i), t: f.Type()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omitempty = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		out = append(out, jf)
	}
	return out, ""
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func (p *Path) jsonEnc(v Value, t types.Type, depth int) []*Term {
	if depth > 40 {
		p.unsupported("json depth")
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if m := p.ex.lookupMethod(t, nil, "MarshalJSON"); m != nil {
			if mp, ok := v.(*Value); ok && mp == nil {
				return p.lit("null")
			}
			r := p.callClosure(nil, p.ex.closureOf(m), []Value{copyVal(v)}).(Tuple)
			if r[1].(Iface).t != nil {
				panic(jsonFail{r[1].(Iface)})
			}
			return p.sliceLit(r[0].(Slice))
		}
		if p.ex.lookupMethod(t, nil, "MarshalText") != nil {
			p.unsupported("json TextMarshaler")
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return p.lit("null")
		}
		return p.jsonEnc(i.v, i.t, depth+1)
	case *types.Pointer:
		a, ok := v.(*Value)
		if !ok {
			p.unsupported("json of pointer")
		}
		if a == nil {
			return p.lit("null")
		}
		return p.jsonEnc(*a, u.Elem(), depth+1)
	case *types.Basic:
		switch x := v.(type) {
		case Str:
			return p.jsonStr(p.strBytes(x))
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				panic(jsonFail{p.jerr("unsupported value")})
			}
			return p.lit(jsonFloat(x, u.Kind() == types.Float32))
		case *Term:
			w, sg, _ := intInfo(u)
			if w == 0 {
				if p.branch(x) {
					return p.lit("true")
				}
				return p.lit("false")
			}
			c := p.concTerm(x)
			if sg {
				return p.lit(strconv.FormatInt(sx(c, w), 10))
			}
			return p.lit(strconv.FormatUint(c, 10))
		}
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return p.lit("null")
		}
		type kv struct {
			k string
			v Value
		}
		var kvs []kv
		for _, e := range m.ents {
			switch k := e.k.(type) {
			case Str:
				kvs = append(kvs, kv{p.goStr(k), e.v})
			case *Term:
				w, sg, _ := intInfo(u.Key())
				c := p.concTerm(k)
				if sg {
					kvs = append(kvs, kv{strconv.FormatInt(sx(c, w), 10), e.v})
				} else {
					kvs = append(kvs, kv{strconv.FormatUint(c, 10), e.v})
				}
			default:
				panic(jsonFail{p.jerr("unsupported type: " + t.String())})
			}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		out := p.lit("{")
		for i, e := range kvs {
			if i > 0 {
				out = append(out, p.lit(",")...)
			}
			out = append(out, p.jsonStr(p.lit(e.k))...)
			out = append(out, p.lit(":")...)
			out = append(out, p.jsonEnc(e.v, u.Elem(), depth+1)...)
		}
		return append(out, p.lit("}")...)
	case *types.Slice:
		s := v.(Slice)
		if s.b == nil {
			return p.lit("null")
		}
		if isByteType(u.Elem()) {
			var raw []byte
			for _, b := range p.sliceLit(s) {
				raw = append(raw, byte(p.concTerm(b)))
			}
			return p.lit(jsonB64(raw))
		}
		n, o := p.concInt(s.len), p.concInt(s.off)
		out := p.lit("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, p.lit(",")...)
			}
			out = append(out, p.jsonEnc(s.b.(*GArr).e[o+i], u.Elem(), depth+1)...)
		}
		return append(out, p.lit("]")...)
	case *types.Array:
		a, ok := v.(Array)
		if !ok {
			break
		}
		out := p.lit("[")
		for i := range a {
			if i > 0 {
				out = append(out, p.lit(",")...)
			}
			out = append(out, p.jsonEnc(a[i], u.Elem(), depth+1)...)
		}
		return append(out, p.lit("]")...)
	case *types.Struct:
		fs, e := jsonFields(u, nil)
		if e != "" {
			p.unsupported("json " + e)
		}
		out := p.lit("{")
		first := true
		for _, f := range fs {
			var fv Value = v
			for _, i := range f.idx {
				fv = fv.(Struct)[i]
			}
			if f.omitempty && p.jsonEmpty(fv, f.t) {
				continue
			}
			if f.str {
				p.unsupported("json string option")
			}
			if !first {
				out = append(out, p.lit(",")...)
			}
			first = false
			out = append(out, p.lit(strconv.Quote(f.name)+":")...)
			out = append(out, p.jsonEnc(fv, f.t, depth+1)...)
		}
		return append(out, p.lit("}")...)
	case *types.Chan, *types.Signature:
		panic(jsonFail{p.jerr("unsupported type: " + t.String())})
	}
	p.unsupported("json encoding of " + t.String())
	return nil
}

func (p *Path) jsonEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case Str:
		return p.branch(p.tc.Eq(p.strLen(x), p.tc.Int(0)))
	case *Term:
		return p.branch(p.tc.Eq(x, p.tc.BV(x.w, 0)))
	case float64:
		return x == 0
	case *MapV:
		return x == nil || len(x.ents) == 0
	case Slice:
		return p.branch(p.tc.Eq(x.len, p.tc.Int(0)))
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (p *Path) jsonMarshal(v Iface) (res []*Term, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(jsonFail); ok {
				res, err = nil, f.e
				return
			}
			panic(r)
		}
	}()
	if v.t == nil {
		return p.lit("null"), Iface{}
	}
	return p.jsonEnc(v.v, v.t, 0), Iface{}
}

// ---------------------------------------------------------------- parsing

type jnode struct {
	k    byte // n t f # s [ {
	s    []*Term
	num  string
	kids []*jnode
	keys [][]*Term
}

type jparser struct {
	p  *Path
	b  []*Term
	i  int
	ok bool
}

func (j *jparser) fail() { panic(jsonFail{j.p.jerr("syntax error")}) }
func (j *jparser) ws() {
	for j.i < len(j.b) {
		b := j.b[j.i]
		if b.IsConst() {
			switch b.c {
			case ' ', '\t', '\n', '\r':
				j.i++
				continue
			}
			return
		}
		tc := j.p.tc
		c := tc.Or(tc.Or(tc.Eq(b, tc.BV(8, ' ')), tc.Eq(b, tc.BV(8, '\t'))), tc.Or(tc.Eq(b, tc.BV(8, '\n')), tc.Eq(b, tc.BV(8, '\r'))))
		if !j.p.branch(c) {
			return
		}
		j.i++
	}
}
func (j *jparser) peek() *Term {
	if j.i >= len(j.b) {
		j.fail()
	}
	return j.b[j.i]
}
func (j *jparser) want(s string) {
	for k := 0; k < len(s); k++ {
		if !j.p.isB(j.peek(), s[k]) {
			j.fail()
		}
		j.i++
	}
}

func (j *jparser) value(d int) *jnode {
	if d > 200 {
		j.p.unsupported("json nesting")
	}
	p := j.p
	j.ws()
	b := j.peek()
	switch {
	case p.isB(b, '{'):
		j.i++
		n := &jnode{k: '{'}
		j.ws()
		if p.isB(j.peek(), '}') {
			j.i++
			return n
		}
		for {
			j.ws()
			if !p.isB(j.peek(), '"') {
				j.fail()
			}
			key := j.str()
			j.ws()
			j.want(":")
			v := j.value(d + 1)
			n.keys = append(n.keys, key)
			n.kids = append(n.kids, v)
			j.ws()
			c := j.peek()
			if p.isB(c, ',') {
				j.i++
				continue
			}
			if p.isB(c, '}') {
				j.i++
				return n
			}
			j.fail()
		}
	case p.isB(b, '['):
		j.i++
		n := &jnode{k: '['}
		j.ws()
		if p.isB(j.peek(), ']') {
			j.i++
			return n
		}
		for {
			n.kids = append(n.kids, j.value(d+1))
			j.ws()
			c := j.peek()
			if p.isB(c, ',') {
				j.i++
				continue
			}
			if p.isB(c, ']') {
				j.i++
				return n
			}
			j.fail()
		}
	case p.isB(b, '"'):
		return &jnode{k: 's', s: j.str()}
	case p.isB(b, 't'):
		j.want("true")
		return &jnode{k: 't'}
	case p.isB(b, 'f'):
		j.want("false")
		return &jnode{k: 'f'}
	case p.isB(b, 'n'):
		j.want("null")
		return &jnode{k: 'n'}
	case p.isB(b, '-'), p.inRange(b, '0', '9'):
		return j.number()
	}
	j.fail()
	return nil
}

func (j *jparser) digits() int {
	n := 0
	for j.i < len(j.b) && j.p.inRange(j.b[j.i], '0', '9') {
		j.i++
		n++
	}
	return n
}
func (j *jparser) number() *jnode {
	p := j.p
	st := j.i
	if p.isB(j.peek(), '-') {
		j.i++
	}
	if p.isB(j.peek(), '0') {
		j.i++
	} else if j.digits() == 0 {
		j.fail()
	}
	if j.i < len(j.b) && p.isB(j.b[j.i], '.') {
		j.i++
		if j.digits() == 0 {
			j.fail()
		}
	}
	if j.i < len(j.b) && (p.isB(j.b[j.i], 'e') || p.isB(j.b[j.i], 'E')) {
		j.i++
		if j.i < len(j.b) && (p.isB(j.b[j.i], '+') || p.isB(j.b[j.i], '-')) {
			j.i++
		}
		if j.digits() == 0 {
			j.fail()
		}
	}
	return &jnode{k: '#', s: j.b[st:j.i]}
}
func (p *Path) numText(n *jnode) string {
	if n.num == "" {
		var sb []byte
		for _, b := range n.s {
			sb = append(sb, byte(p.pin(b, "digits of symbolic JSON numbers: one representative")))
		}
		n.num = string(sb)
	}
	return n.num
}

func (j *jparser) str() []*Term {
	p := j.p
	j.i++ // opening quote
	out := []*Term{}
	for {
		b := j.peek()
		switch {
		case p.isB(b, '"'):
			j.i++
			return out
		case p.isB(b, '\\'):
			j.i++
			e := j.peek()
			j.i++
			switch {
			case p.isB(e, '"'), p.isB(e, '\\'), p.isB(e, '/'):
				out = append(out, e)
			case p.isB(e, 'b'):
				out = append(out, p.tc.BV(8, '\b'))
			case p.isB(e, 'f'):
				out = append(out, p.tc.BV(8, '\f'))
			case p.isB(e, 'n'):
				out = append(out, p.tc.BV(8, '\n'))
			case p.isB(e, 'r'):
				out = append(out, p.tc.BV(8, '\r'))
			case p.isB(e, 't'):
				out = append(out, p.tc.BV(8, '\t'))
			case p.isB(e, 'u'):
				var hexs []byte
				for k := 0; k < 4; k++ {
					h := j.peek()
					if !p.inRange(h, '0', '9') && !p.inRange(h, 'a', 'f') && !p.inRange(h, 'A', 'F') {
						j.fail()
					}
					hexs = append(hexs, byte(p.pin(h, "digits of symbolic JSON \\u escapes: one representative")))
					j.i++
				}
				v, _ := strconv.ParseUint(string(hexs), 16, 32)
				if v >= 0xd800 && v < 0xe000 {
					p.narrow("JSON surrogate escapes decode to U+FFFD")
					v = 0xfffd
				}
				out = append(out, p.lit(string(rune(v)))...)
			default:
				j.fail()
			}
		case p.inRange(b, 0, 0x1f):
			j.fail()
		case p.branch(p.tc.bin(OpULe, p.tc.BV(8, 0x80), b)):
			// a run of non-ASCII bytes, made concrete
			var raw []byte
			for j.i < len(j.b) {
				c := j.b[j.i]
				if !p.branch(p.tc.bin(OpULe, p.tc.BV(8, 0x80), c)) {
					break
				}
				raw = append(raw, byte(p.pin(c, "non-ASCII text in JSON strings: one representative")))
				j.i++
			}
			out = append(out, p.lit(validUTF8(raw))...)
		default:
			out = append(out, b)
			j.i++
		}
	}
}

// ---------------------------------------------------------------- assigning

type jdec struct {
	p   *Path
	err Iface
}

func (d *jdec) mismatch(n *jnode, t types.Type) {
	if d.err.t == nil {
		d.err = d.p.jerr("cannot unmarshal value into Go value of type " + t.String())
	}
}

func (d *jdec) any(n *jnode) Value {
	p := d.p
	switch n.k {
	case 'n':
		return Iface{}
	case 't':
		return Iface{types.Typ[types.Bool], p.tc.True}
	case 'f':
		return Iface{types.Typ[types.Bool], p.tc.False}
	case 's':
		return Iface{types.Typ[types.String], p.mkStr(n.s)}
	case '#':
		f, e := strconv.ParseFloat(p.numText(n), 64)
		if e != nil {
			d.mismatch(n, types.Typ[types.Float64])
			return Iface{}
		}
		return Iface{types.Typ[types.Float64], f}
	case '[':
		g := &GArr{}
		for _, k := range n.kids {
			g.e = append(g.e, d.any(k))
		}
		l := p.tc.Int(int64(len(g.e)))
		return Iface{types.NewSlice(emptyIface), Slice{g, p.tc.Int(0), l, l}}
	case '{':
		m := &MapV{kt: types.Typ[types.String]}
		for i, k := range n.keys {
			v := d.any(n.kids[i])
			p.rawSet(m, p.mkStr(k), v)
		}
		return Iface{mapSI, m}
	}
	panic("jnode")
}

var emptyIface = types.NewInterfaceType(nil, nil).Complete()
var mapSI = types.NewMap(types.Typ[types.String], emptyIface)

func (p *Path) foldEq(a []*Term, b string) bool {
	if len(a) != len(b) {
		return false
	}
	c := p.tc.True
	for i, t := range a {
		x := b[i]
		e := p.tc.Eq(t, p.tc.BV(8, uint64(x)))
		if x >= 'a' && x <= 'z' {
			e = p.tc.Or(e, p.tc.Eq(t, p.tc.BV(8, uint64(x-32))))
		} else if x >= 'A' && x <= 'Z' {
			e = p.tc.Or(e, p.tc.Eq(t, p.tc.BV(8, uint64(x+32))))
		}
		c = p.tc.And(c, e)
	}
	return p.branch(c)
}

// into decodes n into the variable dst of type t.
func (d *jdec) into(n *jnode, dst *Value, t types.Type) {
	p := d.p
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if p.ex.lookupMethod(types.NewPointer(t), nil, "UnmarshalJSON") != nil || p.ex.lookupMethod(types.NewPointer(t), nil, "UnmarshalText") != nil {
			p.unsupported("json Unmarshaler " + t.String())
		}
	}
	set := func(v Value) {
		if p.race != nil {
			p.race.write(p, dst)
		}
		storeInto(dst, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.k == 'n' {
			set((*Value)(nil))
			return
		}
		a := (*dst).(*Value)
		if a == nil {
			a = new(Value)
			*a = p.zero(u.Elem())
			set(a)
		}
		d.into(n, a, u.Elem())
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.k == 'n' {
				set(Iface{})
				return
			}
			d.mismatch(n, t)
			return
		}
		if i, ok := (*dst).(Iface); ok && i.t != nil && n.k != 'n' {
			if pt, ok := i.t.Underlying().(*types.Pointer); ok {
				if a, ok := i.v.(*Value); ok && a != nil {
					d.into(n, a, pt.Elem())
					return
				}
			}
		}
		set(d.any(n))
	case *types.Basic:
		if n.k == 'n' {
			return
		}
		w, sg, isInt := intInfo(u)
		switch {
		case u.Info()&types.IsString != 0:
			if n.k == 's' {
				set(p.mkStr(n.s))
				return
			}
		case isInt && w == 0:
			if n.k == 't' || n.k == 'f' {
				set(p.tc.Bool(n.k == 't'))
				return
			}
		case isInt:
			if n.k == '#' {
				if sg {
					v, e := strconv.ParseInt(p.numText(n), 10, int(w))
					if e == nil {
						set(p.tc.BV(w, uint64(v)))
						return
					}
				} else {
					v, e := strconv.ParseUint(p.numText(n), 10, int(w))
					if e == nil {
						set(p.tc.BV(w, v))
						return
					}
				}
			}
		case u.Info()&types.IsFloat != 0:
			if n.k == '#' {
				v, e := strconv.ParseFloat(p.numText(n), 64)
				if e == nil {
					set(v)
					return
				}
			}
		}
		d.mismatch(n, t)
	case *types.Map:
		if n.k == 'n' {
			set((*MapV)(nil))
			return
		}
		if n.k != '{' {
			d.mismatch(n, t)
			return
		}
		kb, ok := u.Key().Underlying().(*types.Basic)
		if !ok || kb.Info()&types.IsString == 0 {
			p.unsupported("json map key")
		}
		m := (*dst).(*MapV)
		if m == nil {
			m = &MapV{kt: u.Key()}
			set(m)
		}
		for i, k := range n.keys {
			e := new(Value)
			*e = p.zero(u.Elem())
			d.into(n.kids[i], e, u.Elem())
			p.mapSet(m, p.mkStr(k), *e)
		}
	case *types.Slice:
		if n.k == 'n' {
			set(p.nilSlice())
			return
		}
		if isByteType(u.Elem()) {
			if n.k == 's' {
				raw := make([]byte, len(n.s))
				for i, b := range n.s {
					raw[i] = byte(p.concTerm(b))
				}
				dec, e := unB64(raw)
				if e != nil {
					if d.err.t == nil {
						d.err = p.jerr("illegal base64 data")
					}
					return
				}
				set(p.goBytesToSlice(dec))
				return
			}
		}
		if n.k != '[' {
			d.mismatch(n, t)
			return
		}
		g := &GArr{}
		for _, k := range n.kids {
			e := new(Value)
			*e = p.zero(u.Elem())
			d.into(k, e, u.Elem())
			g.e = append(g.e, *e)
		}
		l := p.tc.Int(int64(len(g.e)))
		set(Slice{g, p.tc.Int(0), l, l})
	case *types.Struct:
		if n.k == 'n' {
			return
		}
		if n.k != '{' {
			d.mismatch(n, t)
			return
		}
		fs, e := jsonFields(u, nil)
		if e != "" {
			p.unsupported("json " + e)
		}
		for i, k := range n.keys {
			hit := -1
			for x, f := range fs {
				if len(f.name) == len(k) && p.branch(p.strEq(p.mkStr(k), cstr(f.name))) {
					hit = x
					break
				}
			}
			if hit < 0 {
				for x, f := range fs {
					if p.foldEq(k, f.name) {
						hit = x
						break
					}
				}
			}
			if hit < 0 {
				continue
			}
			a := dst
			for _, ix := range fs[hit].idx {
				a = &((*a).(Struct))[ix]
			}
			d.into(n.kids[i], a, fs[hit].t)
		}
	default:
		if n.k == 'n' {
			return
		}
		d.mismatch(n, t)
	}
}

func (p *Path) jsonUnmarshal(data Slice, dst Iface) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(jsonFail); ok {
				err = f.e
				return
			}
			panic(r)
		}
	}()
	bs := p.sliceLit(data)
	j := &jparser{p: p, b: bs}
	n := j.value(0)
	j.ws()
	if j.i != len(bs) {
		j.fail()
	}
	if dst.t == nil {
		return p.jerr("Unmarshal(nil)")
	}
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return p.jerr("Unmarshal(non-pointer " + dst.t.String() + ")")
	}
	a, ok := dst.v.(*Value)
	if !ok {
		p.unsupported("json destination")
	}
	if a == nil {
		return p.jerr("Unmarshal(nil " + dst.t.String() + ")")
	}
	d := &jdec{p: p}
	d.into(n, a, pt.Elem())
	return d.err
}

// ---------------------------------------------------------------- contracts

func (p *Path) handleEnc(codec string, v Iface) Slice {
	for i, h := range p.handles {
		if h.codec == codec && types.Identical(h.t, v.t) && p.deepEq(h.v, deepCopy(v.v, map[interface{}]Value{}), 0) {
			return p.goBytesToSlice([]byte(fmt.Sprintf("%s#%03d", codec, i)))
		}
	}
	p.handles = append(p.handles, handleRec{codec: codec, v: deepCopy(v.v, map[interface{}]Value{}), t: v.t})
	return p.goBytesToSlice([]byte(fmt.Sprintf("%s#%03d", codec, len(p.handles)-1)))
}

func (p *Path) handleDec(codec string, data Slice, dst Iface) Iface {
	if dst.t == nil {
		return p.errNew(cstr(codec + ": nil destination"))
	}
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return p.errNew(cstr(codec + ": destination is not a pointer"))
	}
	a, _ := dst.v.(*Value)
	if a == nil {
		return p.errNew(cstr(codec + ": nil destination"))
	}
	if p.branch(p.tc.Eq(data.len, p.tc.Int(0))) {
		if codec == "xml" {
			return p.errNew(cstr("EOF"))
		}
		return Iface{}
	}
	bs := p.sliceLit(data)
	// The TOML library does not answer every malformed document with an
	// error: a comment where an inline table's key should start makes its
	// parser panic, whatever follows (checked natively for up to two bytes).
	if codec == "toml" && len(bs) >= 4 && len(bs) <= 6 {
		hit := true
		for i, ch := range []byte("a={#") {
			hit = hit && bs[i].IsConst() && byte(bs[i].c) == ch
		}
		if hit {
			p.panicStr("BUG: Expected key start but instead found \"\", around line 1")
		}
	}
	raw := make([]byte, len(bs))
	for i, b := range bs {
		if !b.IsConst() {
			p.narrow(codec + " decoding of arbitrary bytes: taken to fail")
			return p.errNew(cstr(codec + ": malformed input"))
		}
		raw[i] = byte(b.c)
	}
	s := string(raw)
	if strings.HasPrefix(s, codec+"#") {
		n, e := strconv.Atoi(s[len(codec)+1:])
		if e == nil && n < len(p.handles) && p.handles[n].codec == codec {
			h := p.handles[n]
			src, st := h.v, h.t
			if sp, ok := st.Underlying().(*types.Pointer); ok {
				st = sp.Elem()
				src = *(src.(*Value))
			}
			if types.Identical(st, pt.Elem()) {
				if p.race != nil {
					p.race.write(p, a)
				}
				storeInto(a, deepCopy(src, map[interface{}]Value{}))
				return Iface{}
			}
			if i, ok := pt.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				p.unsupported(codec + " decoding into interface")
			}
			p.narrow(codec + " decoding into a different type: taken to fail")
		}
	}
	return p.errNew(cstr(codec + ": malformed input"))
}

// deepCopy copies a value graph.
func deepCopy(v Value, seen map[interface{}]Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = deepCopy(x[i], seen)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = deepCopy(x[i], seen)
		}
		return n
	case *BArr:
		if x == nil {
			return x
		}
		return x.clone()
	case *Value:
		if x == nil {
			return x
		}
		if y, ok := seen[x]; ok {
			return y
		}
		n := new(Value)
		seen[x] = n
		*n = deepCopy(*x, seen)
		return n
	case Slice:
		switch b := x.b.(type) {
		case *BArr:
			x.b = b.clone()
		case *GArr:
			g := &GArr{e: make([]Value, len(b.e))}
			for i := range b.e {
				g.e[i] = deepCopy(b.e[i], seen)
			}
			x.b = g
		}
		return x
	case *MapV:
		if x == nil {
			return x
		}
		m := &MapV{kt: x.kt}
		for _, e := range x.ents {
			m.ents = append(m.ents, &MapEntry{deepCopy(e.k, seen), deepCopy(e.v, seen)})
		}
		return m
	case Iface:
		return Iface{x.t, deepCopy(x.v, seen)}
	}
	return v
}

func regCodecs() {
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		b, e := p.jsonMarshal(a[0].(Iface))
		if e.t != nil {
			return Tuple{p.nilSlice(), e}, true
		}
		return Tuple{p.bytesToSlice(b), Iface{}}, true
	}, "encoding/json.Marshal")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := opaque("indented json")
		_ = s
		return Tuple{p.goBytesToSlice([]byte("{}")), Iface{}}, true
	}, "encoding/json.MarshalIndent")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return p.jsonUnmarshal(a[0].(Slice), a[1].(Iface)), true
	}, "encoding/json.Unmarshal")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		p.unsupported(fn.String())
		return nil, true
	}, "encoding/json.NewDecoder", "encoding/json.NewEncoder")

	enc := func(codec string) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
			v := a[0].(Iface)
			if v.t == nil {
				if codec == "yaml" {
					return Tuple{p.goBytesToSlice([]byte("null\n")), Iface{}}, true
				}
				return Tuple{p.nilSlice(), Iface{}}, true
			}
			if codec == "xml" {
				switch u := v.t.Underlying().(type) {
				case *types.Map, *types.Chan, *types.Signature:
					_ = u
					return Tuple{p.nilSlice(), p.errNew(cstr("xml: unsupported type"))}, true
				}
			}
			if codec == "yaml" || codec == "toml" {
				switch v.t.Underlying().(type) {
				case *types.Chan, *types.Signature:
					p.panicStr("cannot marshal type: " + v.t.String())
				}
			}
			return Tuple{p.handleEnc(codec, v), Iface{}}, true
		}
	}
	dec := func(codec string) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
			return p.handleDec(codec, a[0].(Slice), a[1].(Iface)), true
		}
	}
	reg(enc("xml"), "encoding/xml.Marshal")
	reg(dec("xml"), "encoding/xml.Unmarshal")
	reg(enc("yaml"), "gopkg.in/yaml.v2.Marshal", "gopkg.in/yaml.v3.Marshal")
	reg(dec("yaml"), "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v3.Unmarshal")
	reg(enc("proto"), "github.com/golang/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Marshal")
	reg(dec("proto"), "github.com/golang/protobuf/proto.Unmarshal", "google.golang.org/protobuf/proto.Unmarshal")
	reg(dec("toml"), "github.com/BurntSushi/toml.Unmarshal")
	reg(enc("toml"), "github.com/BurntSushi/toml.Marshal")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		v := new(Value)
		*v = p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		p.side[v] = a[0]
		return v, true
	}, "github.com/BurntSushi/toml.NewEncoder")
	reg(func(p *Path, c *frame, fn *ssa.Function, a []Value) (Value, bool) {
		w, _ := p.side[a[0].(*Value)].(Iface)
		v := a[1].(Iface)
		if v.t == nil {
			return p.errNew(cstr("toml: nil")), true
		}
		ut := v.t.Underlying()
		if pt, ok := ut.(*types.Pointer); ok {
			ut = pt.Elem().Underlying()
		}
		switch ut.(type) {
		case *types.Struct, *types.Map:
		case *types.Chan, *types.Signature:
			p.panicStr("toml: unsupported type for key ''")
		default:
			return p.errNew(cstr("toml: top-level values must be Go maps or structs")), true
		}
		b := p.handleEnc("toml", v)
		m := p.methodByName(w, "Write")
		r := p.callClosure(c, m, []Value{w.v, b}).(Tuple)
		return r[1], true
	}, "(*github.com/BurntSushi/toml.Encoder).Encode")
}
