package main

// Hash-consed bit-vector / boolean terms with constant folding.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpSel // uninterpreted function name(idx64) -> bv8
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpBNot
	OpNeg
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpExtract
	OpConcat
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpBNot: "bvnot", OpNeg: "bvneg", OpULt: "bvult", OpULe: "bvule",
	OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
}

// Term is a boolean (w==0) or a bit-vector of width w (1..64).
type Term struct {
	op     Op
	w      uint8
	hi, lo uint8
	c      uint64
	a      [3]*Term
	name   string
	id     int32
	sym    bool
}

type tkey struct {
	op     Op
	w      uint8
	hi, lo uint8
	c      uint64
	a      [3]*Term
	name   string
}

// TC is a term context (one per worker, not shared).
type TC struct {
	tab    map[tkey]*Term
	small  [65][258]*Term
	next   int32
	True   *Term
	False  *Term
	consts map[[2]uint64]*Term
}

func NewTC() *TC {
	tc := &TC{tab: map[tkey]*Term{}, consts: map[[2]uint64]*Term{}}
	tc.False = tc.mkConst(0, 0)
	tc.True = tc.mkConst(0, 1)
	return tc
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (tc *TC) mkConst(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if t := tc.small[w][v]; t != nil {
			return t
		}
	}
	k := [2]uint64{uint64(w), v}
	if t, ok := tc.consts[k]; ok {
		return t
	}
	tc.next++
	t := &Term{op: OpConst, w: w, c: v, id: tc.next}
	if v < 256 {
		tc.small[w][v] = t
	} else {
		tc.consts[k] = t
	}
	return t
}
func (tc *TC) BV(w uint8, v uint64) *Term { return tc.mkConst(w, v) }
func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.True
	}
	return tc.False
}
func (tc *TC) Int(v int64) *Term { return tc.mkConst(64, uint64(v)) }

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }
func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}
func (t *Term) S() int64 { return sx(t.c, t.w) }

func (tc *TC) mk(k tkey) *Term {
	if t, ok := tc.tab[k]; ok {
		return t
	}
	tc.next++
	t := &Term{op: k.op, w: k.w, hi: k.hi, lo: k.lo, c: k.c, a: k.a, name: k.name, id: tc.next, sym: true}
	tc.tab[k] = t
	return t
}
func (tc *TC) Var(name string, w uint8) *Term { return tc.mk(tkey{op: OpVar, w: w, name: name}) }
func (tc *TC) Sel(name string, idx *Term) *Term {
	return tc.mk(tkey{op: OpSel, w: 8, name: name, a: [3]*Term{idx}})
}

func (tc *TC) Not(x *Term) *Term {
	if x.op == OpConst {
		return tc.Bool(x.c == 0)
	}
	if x.op == OpNot {
		return x.a[0]
	}
	return tc.mk(tkey{op: OpNot, a: [3]*Term{x}})
}
func (tc *TC) And(x, y *Term) *Term {
	if x.IsFalse() || y.IsFalse() {
		return tc.False
	}
	if x.IsTrue() {
		return y
	}
	if y.IsTrue() {
		return x
	}
	if x == y {
		return x
	}
	if (x.op == OpNot && x.a[0] == y) || (y.op == OpNot && y.a[0] == x) {
		return tc.False
	}
	return tc.mk(tkey{op: OpAnd, a: [3]*Term{x, y}})
}
func (tc *TC) Or(x, y *Term) *Term { return tc.Not(tc.And(tc.Not(x), tc.Not(y))) }
func (tc *TC) Ite(c, x, y *Term) *Term {
	if c.IsTrue() {
		return x
	}
	if c.IsFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return tc.Or(tc.And(c, x), tc.And(tc.Not(c), y))
	}
	return tc.mk(tkey{op: OpIte, w: x.w, a: [3]*Term{c, x, y}})
}

func (tc *TC) Eq(x, y *Term) *Term {
	if x == y {
		return tc.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("eq width %d %d", x.w, y.w))
	}
	if x.IsConst() && y.IsConst() {
		return tc.Bool(x.c == y.c)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.IsTrue() {
			return x
		}
		if y.IsFalse() {
			return tc.Not(x)
		}
	}
	if y.IsConst() {
		switch x.op {
		case OpZExt:
			if y.c > mask(x.a[0].w) {
				return tc.False
			}
			return tc.Eq(x.a[0], tc.BV(x.a[0].w, y.c))
		case OpSExt:
			in := x.a[0]
			if uint64(sx(y.c&mask(in.w), in.w))&mask(x.w) != y.c {
				return tc.False
			}
			return tc.Eq(in, tc.BV(in.w, y.c))
		case OpAdd:
			if x.a[1].IsConst() {
				return tc.Eq(x.a[0], tc.BV(x.w, y.c-x.a[1].c))
			}
		case OpIte:
			if x.a[1].IsConst() && x.a[2].IsConst() {
				return tc.Ite(x.a[0], tc.Bool(x.a[1].c == y.c), tc.Bool(x.a[2].c == y.c))
			}
		}
	} else {
		// x + c == x  etc.
		bx, cx := splitAdd(x)
		by, cy := splitAdd(y)
		if bx == by {
			return tc.Bool((cx-cy)&mask(x.w) == 0)
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return tc.mk(tkey{op: OpEq, a: [3]*Term{x, y}})
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OpAdd && t.a[1].IsConst() {
		return t.a[0], t.a[1].c
	}
	return t, 0
}

func (tc *TC) Add(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return tc.BV(x.w, x.c+y.c)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.c == 0 {
			return x
		}
		if x.op == OpAdd && x.a[1].IsConst() {
			return tc.Add(x.a[0], tc.BV(x.w, x.a[1].c+y.c))
		}
		return tc.mk(tkey{op: OpAdd, w: x.w, a: [3]*Term{x, y}})
	}
	// pull constants out
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if cx != 0 || cy != 0 {
		return tc.Add(tc.Add(bx, by), tc.BV(x.w, cx+cy))
	}
	// (a-b)+b = a
	if x.op == OpSub && x.a[1] == y {
		return x.a[0]
	}
	if y.op == OpSub && y.a[1] == x {
		return y.a[0]
	}
	if x.id > y.id {
		x, y = y, x
	}
	return tc.mk(tkey{op: OpAdd, w: x.w, a: [3]*Term{x, y}})
}
func (tc *TC) Sub(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return tc.BV(x.w, x.c-y.c)
	}
	if y.IsConst() {
		return tc.Add(x, tc.BV(x.w, -y.c))
	}
	if x == y {
		return tc.BV(x.w, 0)
	}
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if bx == by {
		return tc.BV(x.w, cx-cy)
	}
	if cx != 0 || cy != 0 {
		return tc.Add(tc.Sub(bx, by), tc.BV(x.w, cx-cy))
	}
	if x.op == OpAdd {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
	}
	if x.op == OpSub && y.op == OpSub && x.a[0] == y.a[0] {
		// (a-b)-(a-c) = c-b
		return tc.Sub(y.a[1], x.a[1])
	}
	if y.op == OpSub && y.a[0] == x {
		return y.a[1]
	}
	return tc.mk(tkey{op: OpSub, w: x.w, a: [3]*Term{x, y}})
}

func (tc *TC) bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %v %d %d", opSMT[op], x.w, y.w))
	}
	if x.IsConst() && y.IsConst() {
		return tc.fold(op, x, y)
	}
	switch op {
	case OpAdd:
		return tc.Add(x, y)
	case OpSub:
		return tc.Sub(x, y)
	case OpMul:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return y
			}
			if y.c == 1 {
				return x
			}
		}
	case OpBAnd:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return y
			}
			if y.c == mask(w) {
				return x
			}
			if n := bits.OnesCount64(y.c); y.c == mask(uint8(n)) && n < int(w) {
				return tc.ZExt(tc.Extract(x, uint8(n-1), 0), w)
			}
		}
		if x == y {
			return x
		}
	case OpBOr:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return x
			}
			if y.c == mask(w) {
				return y
			}
		}
		if x == y {
			return x
		}
	case OpBXor:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.c == 0 {
			return x
		}
		if x == y {
			return tc.BV(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if y.IsConst() {
			if y.c == 0 {
				return x
			}
			if y.c >= uint64(w) && op != OpAShr {
				return tc.BV(w, 0)
			}
			if op == OpLShr && y.c < uint64(w) {
				return tc.ZExt(tc.Extract(x, w-1, uint8(y.c)), w)
			}
		}
		if x.IsConst() && x.c == 0 {
			return x
		}
	case OpUDiv, OpSDiv:
		if y.IsConst() && y.c == 1 {
			return x
		}
	case OpULt:
		if x == y {
			return tc.False
		}
		if y.IsConst() && y.c == 0 {
			return tc.False
		}
		if y.IsConst() && x.op == OpZExt && y.c > mask(x.a[0].w) {
			return tc.True
		}
	case OpULe:
		if x == y {
			return tc.True
		}
		if x.IsConst() && x.c == 0 {
			return tc.True
		}
	case OpSLt:
		if x == y {
			return tc.False
		}
		if x.op == OpZExt && y.IsConst() {
			if y.S() <= 0 {
				return tc.False
			}
			if uint64(y.S()) > mask(x.a[0].w) {
				return tc.True
			}
		}
		if y.op == OpZExt && x.IsConst() {
			if x.S() < 0 {
				return tc.True
			}
			if uint64(x.S()) >= mask(y.a[0].w) {
				return tc.False
			}
		}
	case OpSLe:
		if x == y {
			return tc.True
		}
		if x.op == OpZExt && y.IsConst() {
			if y.S() < 0 {
				return tc.False
			}
			if uint64(y.S()) >= mask(x.a[0].w) {
				return tc.True
			}
		}
		if y.op == OpZExt && x.IsConst() {
			if x.S() <= 0 {
				return tc.True
			}
			if uint64(x.S()) > mask(y.a[0].w) {
				return tc.False
			}
		}
	}
	rw := w
	if op == OpULt || op == OpULe || op == OpSLt || op == OpSLe {
		rw = 0
	}
	return tc.mk(tkey{op: op, w: rw, a: [3]*Term{x, y}})
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, uint8) {
	b := func(v bool) (uint64, uint8) {
		if v {
			return 1, 0
		}
		return 0, 0
	}
	switch op {
	case OpAnd:
		return x & y, 0
	case OpOr:
		return x | y, 0
	case OpEq:
		return b(x == y)
	case OpAdd:
		return x + y, w
	case OpSub:
		return x - y, w
	case OpMul:
		return x * y, w
	case OpUDiv:
		if y == 0 {
			return mask(w), w
		}
		return x / y, w
	case OpURem:
		if y == 0 {
			return x, w
		}
		return x % y, w
	case OpSDiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return mask(w), w
			}
			return 1, w
		}
		if sx(y, w) == -1 {
			return -x, w
		}
		return uint64(sx(x, w) / sx(y, w)), w
	case OpSRem:
		if y == 0 {
			return x, w
		}
		if sx(y, w) == -1 {
			return 0, w
		}
		return uint64(sx(x, w) % sx(y, w)), w
	case OpBAnd:
		return x & y, w
	case OpBOr:
		return x | y, w
	case OpBXor:
		return x ^ y, w
	case OpShl:
		if y >= uint64(w) {
			return 0, w
		}
		return x << y, w
	case OpLShr:
		if y >= uint64(w) {
			return 0, w
		}
		return x >> y, w
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w) >> y), w
	case OpULt:
		return b(x < y)
	case OpULe:
		return b(x <= y)
	case OpSLt:
		return b(sx(x, w) < sx(y, w))
	case OpSLe:
		return b(sx(x, w) <= sx(y, w))
	}
	panic("foldBin")
}
func (tc *TC) fold(op Op, x, y *Term) *Term {
	v, w := foldBin(op, x.w, x.c, y.c)
	return tc.mkConst(w, v)
}

func (tc *TC) BNot(x *Term) *Term {
	if x.IsConst() {
		return tc.BV(x.w, ^x.c)
	}
	return tc.mk(tkey{op: OpBNot, w: x.w, a: [3]*Term{x}})
}
func (tc *TC) Neg(x *Term) *Term {
	if x.IsConst() {
		return tc.BV(x.w, -x.c)
	}
	return tc.Sub(tc.BV(x.w, 0), x)
}
func (tc *TC) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return tc.Extract(x, w-1, 0)
	}
	if x.IsConst() {
		return tc.BV(w, x.c)
	}
	if x.op == OpZExt {
		return tc.ZExt(x.a[0], w)
	}
	return tc.mk(tkey{op: OpZExt, w: w, a: [3]*Term{x}})
}
func (tc *TC) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return tc.Extract(x, w-1, 0)
	}
	if x.IsConst() {
		return tc.BV(w, uint64(x.S()))
	}
	if x.op == OpZExt {
		return tc.ZExt(x.a[0], w)
	}
	if x.op == OpSExt {
		return tc.SExt(x.a[0], w)
	}
	return tc.mk(tkey{op: OpSExt, w: w, a: [3]*Term{x}})
}
func (tc *TC) Extract(x *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	w := hi - lo + 1
	if x.IsConst() {
		return tc.BV(w, x.c>>lo)
	}
	switch x.op {
	case OpZExt:
		in := x.a[0]
		if lo >= in.w {
			return tc.BV(w, 0)
		}
		if hi < in.w {
			return tc.Extract(in, hi, lo)
		}
		return tc.ZExt(tc.Extract(in, in.w-1, lo), w)
	case OpSExt:
		in := x.a[0]
		if hi < in.w {
			return tc.Extract(in, hi, lo)
		}
	case OpExtract:
		return tc.Extract(x.a[0], x.lo+hi, x.lo+lo)
	case OpBOr, OpBAnd, OpBXor:
		return tc.bin(x.op, tc.Extract(x.a[0], hi, lo), tc.Extract(x.a[1], hi, lo))
	case OpShl:
		if x.a[1].IsConst() {
			s := x.a[1].c
			if s < uint64(x.w) {
				s8 := uint8(s)
				if hi < s8 {
					return tc.BV(w, 0)
				}
				if lo >= s8 {
					return tc.Extract(x.a[0], hi-s8, lo-s8)
				}
			}
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return tc.bin(x.op, tc.Extract(x.a[0], hi, 0), tc.Extract(x.a[1], hi, 0))
		}
	case OpIte:
		return tc.Ite(x.a[0], tc.Extract(x.a[1], hi, lo), tc.Extract(x.a[2], hi, lo))
	}
	return tc.mk(tkey{op: OpExtract, w: w, hi: hi, lo: lo, a: [3]*Term{x}})
}

// ---- printing

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func constSMT(t *Term) string {
	if t.w == 0 {
		if t.c == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
}
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return "|" + t.smtName() + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}
func (t *Term) nargs() int {
	n := 0
	for n < 3 && t.a[n] != nil {
		n++
	}
	return n
}
func (t *Term) body() string {
	switch t.op {
	case OpSel:
		return "(|" + t.smtName() + "| " + t.a[0].ref() + ")"
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, t.a[0].ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + opSMT[t.op])
	for i := 0; i < t.nargs(); i++ {
		sb.WriteString(" " + t.a[i].ref())
	}
	sb.WriteString(")")
	return sb.String()
}

// ---- models

type Model struct {
	vars map[string]uint64
	sels map[string]map[uint64]uint64
}

func (m *Model) eval(t *Term, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		return m.vars[t.name] & mask(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpSel:
		r = m.sels[t.name][m.eval(t.a[0], memo)]
	case OpNot:
		r = 1 - m.eval(t.a[0], memo)
	case OpIte:
		if m.eval(t.a[0], memo) == 1 {
			r = m.eval(t.a[1], memo)
		} else {
			r = m.eval(t.a[2], memo)
		}
	case OpBNot:
		r = ^m.eval(t.a[0], memo)
	case OpNeg:
		r = -m.eval(t.a[0], memo)
	case OpZExt:
		r = m.eval(t.a[0], memo)
	case OpSExt:
		r = uint64(sx(m.eval(t.a[0], memo), t.a[0].w))
	case OpExtract:
		r = m.eval(t.a[0], memo) >> t.lo
	case OpAnd:
		if m.eval(t.a[0], memo) == 0 {
			r = 0
		} else {
			r = m.eval(t.a[1], memo)
		}
	default:
		x, y := m.eval(t.a[0], memo), m.eval(t.a[1], memo)
		r, _ = foldBin(t.op, t.a[0].w, x, y)
	}
	r &= mask(t.w)
	memo[t] = r
	return r
}

// smtName is the solver's name: inputs of the same name and different width
// in different harnesses are different constants.
func (t *Term) smtName() string {
	if t.op == OpSel {
		return t.name + "!a"
	}
	return t.name + "!" + strconv.Itoa(int(t.w))
}
