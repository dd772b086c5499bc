package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	slots    map[ssa.Value]int
	n        int
	hasDefer bool
	inRepo   bool // code under test
	intr     intrinsic
	noBody   bool
	name     string
}

var (
	fnInfos sync.Map
)

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{slots: map[ssa.Value]int{}}
	fi.name = fn.String()
	if o := fn.Origin(); o != nil {
		fi.name = o.String()
	}
	fi.intr = intrinsics[fi.name]
	if fi.intr == nil && fn.Pkg != nil {
		fi.intr = pkgIntrinsics[fn.Pkg.Pkg.Path()]
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath {
		fi.inRepo = true
	}
	if fn.Pkg == nil && fn.Parent() != nil {
		fi.inRepo = infoOf(fn.Parent()).inRepo
	}
	fi.noBody = len(fn.Blocks) == 0
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	x, _ := fnInfos.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

type deferred struct {
	fn   *Closure
	args []Value
	next *deferred
}

type frame struct {
	p         *Path
	g         *G
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	instr     ssa.Instruction
	caller    *frame
	defers    *deferred
	panicking bool
	pan       *targetPanic
	result    Value
	// the frame whose deferred call this is
	deferOf *frame
}

type targetPanic struct {
	v     Value // Iface
	where string
	rt    bool
}

// ---------------------------------------------------------------- panics

func (p *Path) throw(v Value, rt bool) {
	if p.lenient > 0 {
		panic(lenientFail("panic in initialiser"))
	}
	tp := &targetPanic{v: v, rt: rt}
	if p.cur != nil && p.cur.fr != nil {
		tp.where = p.whereStack(p.cur.fr, 5)
	}
	panic(tp)
}
func (p *Path) panicRuntime(msg string) {
	t := p.ex.rtErrType
	if t == nil {
		p.throw(Iface{types.Typ[types.String], cstr("runtime error: " + msg)}, true)
	}
	p.throw(Iface{t, cstr(msg)}, true)
}
func (p *Path) panicStr(msg string) {
	p.throw(Iface{types.Typ[types.String], cstr(msg)}, false)
}

func (p *Path) panicText(tp *targetPanic) string {
	i, ok := tp.v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(Str); ok {
		if s.lazy != nil && s.lazy.done == nil {
			return "<text>"
		}
		s = p.forceStr(s)
		if s.conc() {
			return s.s
		}
		return "<symbolic text>"
	}
	return i.t.String()
}

// ---------------------------------------------------------------- values

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(x)
	case *ssa.Global:
		return fr.p.globalAddr(x)
	case *ssa.Function:
		return fr.p.ex.closureOf(x)
	case *ssa.Builtin:
		return &Closure{bi: x}
	}
	i, ok := fr.info.slots[v]
	if !ok {
		panic(engineError(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn)))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.slots[v]] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	if v, ok := p.w.consts[c]; ok {
		return v
	}
	v := p.mkConstVal(c)
	switch v.(type) {
	case Struct, Array, *BArr:
		return v
	}
	p.w.consts[c] = v
	return v
}

func (p *Path) mkConstVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		p.unsupported("constant of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return p.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(b)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return p.tc.BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return p.tc.BV(w, u)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(i)))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	p.unsupported("constant of type " + t.String())
	return nil
}

func (p *Path) globalAddr(g *ssa.Global) *Value {
	pk := g.Pkg.Pkg.Path()
	if p.ex.perPath[pk] {
		if v, ok := p.globals[g]; ok {
			return v
		}
		v := new(Value)
		*v = p.zero(g.Type().(*types.Pointer).Elem())
		p.globals[g] = v
		return v
	}
	if p.w.inited[g.Pkg] == 0 {
		p.w.initPackage(p, g.Pkg)
	}
	if v, ok := p.w.baseGlob[g]; ok {
		return v
	}
	v := new(Value)
	et := g.Type().(*types.Pointer).Elem()
	*v = p.zero(et)
	if skipInit[g.Pkg.Pkg.Path()] && types.Identical(et, types.Universe.Lookup("error").Type()) {
		*v = p.errNew(cstr(g.Pkg.Pkg.Path() + "." + g.Name()))
	}
	p.w.baseGlob[g] = v
	return v
}

// initPackage runs the variable initialisers of a library package, once per
// worker; anything it cannot run leaves zero values.
func (w *Worker) initPackage(p *Path, pkg *ssa.Package) {
	w.inited[pkg] = 1
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	saveFr := p.cur.fr
	saveSteps := p.steps
	p.lenient++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(lenientFail); ok {
					return
				}
				if _, ok := r.(*targetPanic); ok {
					return
				}
				panic(r)
			}
		}()
		p.callFn(nil, fn, nil, nil)
	}()
	p.lenient--
	p.steps = saveSteps
	p.cur.fr = saveFr
	w.inited[pkg] = 2
}

// runInits runs the initialisers of the code under test (once per path).
func (p *Path) runInits() {
	for _, pk := range p.ex.perPathOrder {
		fn := p.ex.prog.pkgs[pk].Func("init")
		p.callFn(nil, fn, nil, nil)
	}
}

// ---------------------------------------------------------------- calls

func (p *Path) callClosure(caller *frame, c *Closure, args []Value) Value {
	if c == nil {
		p.panicRuntime("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(p, args)
	}
	return p.callFn(caller, c.fn, args, c.free)
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	info := infoOf(fn)
	if info.intr != nil {
		saved := p.cur.fr
		r, handled := info.intr(p, caller, fn, args)
		p.cur.fr = saved
		if handled {
			return r
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && caller != nil && caller.fn.Name() == "init" {
		return nil // package initialisers run on demand
	}
	if info.noBody {
		if p.lenient > 0 {
			return p.zeroResult(fn.Signature)
		}
		p.unsupported("no body: " + fn.String())
	}
	if p.lenient > 0 && fn.Pkg != nil && lenientSkip[fn.Pkg.Pkg.Path()] {
		return p.zeroResult(fn.Signature)
	}
	g := p.cur
	depth := g.depth
	g.depth++
	if g.depth > 2500 {
		if r, m := p.sol.check(nil, true); r == Sat {
			p.addViolation("panic", "crash: stack overflow", m)
		}
		p.end("violation", "stack overflow at "+p.whereStack(g.fr, 8))
	}
	if !p.w.funcSeen[fn] {
		p.w.funcSeen[fn] = true
	}
	fr := &frame{p: p, g: p.cur, fn: fn, info: info, caller: caller, env: make([]Value, info.n)}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = free[i]
	}
	fr.block = fn.Blocks[0]
	saved := g.fr
	g.fr = fr
	if info.hasDefer {
		for fr.block != nil {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	g.fr = saved
	g.depth = depth
	return fr.result
}

func (p *Path) zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func (fr *frame) runProtected() {
	finished := false
	defer func() {
		if finished {
			return
		}
		r := recover()
		if r == nil {
			return // Goexit: the path is over
		}
		tp, ok := r.(*targetPanic)
		if !ok || fr.p.ended || fr.p.killed {
			panic(r)
		}
		fr.p.cur.fr = fr
		fr.panicking = true
		fr.pan = tp
		fr.runDefers()
		// recovered
		if fr.fn.Recover == nil {
			fr.result = fr.p.zeroResult(fr.fn.Signature)
			fr.block = nil
			return
		}
		fr.prev = nil
		fr.block = fr.fn.Recover
	}()
	fr.run()
	finished = true
	fr.block = nil
}

// runDefers runs pending deferred calls; re-panics if still panicking.
func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, isT := r.(*targetPanic)
		if !isT || fr.p.ended || fr.p.killed {
			panic(r)
		}
		fr.g.depth = depth
		fr.p.cur.fr = fr
		fr.panicking = true
		fr.pan = tp
	}()
	fr.p.callDeferred(fr, d)
	ok = true
}

func (p *Path) callDeferred(fr *frame, d *deferred) {
	if d.fn == nil {
		p.panicRuntime("invalid memory address or nil pointer dereference")
	}
	if d.fn.bi != nil {
		p.builtin(fr, d.fn.bi, d.args, nil)
		return
	}
	p.callClosure(fr, d.fn, d.args)
}

func (p *Path) doRecover(fr *frame) Value {
	// fr is the function calling recover(); its caller must be panicking and
	// be running fr as a deferred call.
	c := fr.caller
	if c != nil && c.panicking && c.pan != nil {
		c.panicking = false
		v := c.pan.v
		c.pan = nil
		return v
	}
	return Iface{}
}

// ---------------------------------------------------------------- the loop

func (fr *frame) run() {
	p := fr.p
	for {
		b := fr.block
		instrs := b.Instrs
		i := 0
		// phis
		if len(instrs) > 0 {
			if _, ok := instrs[0].(*ssa.Phi); ok {
				pi := -1
				for k, pr := range b.Preds {
					if pr == fr.prev {
						pi = k
						break
					}
				}
				var vals []Value
				for ; i < len(instrs); i++ {
					ph, ok := instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[pi]))
				}
				for k := 0; k < i; k++ {
					fr.set(instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		next := false
		for ; i < len(instrs); i++ {
			in := instrs[i]
			fr.instr = in
			p.steps++
			if p.steps > p.maxSteps {
				p.stepLimit()
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				next = true
			case *ssa.If:
				if p.branch(fr.get(x.Cond).(*Term)) {
					fr.prev, fr.block = b, b.Succs[0]
				} else {
					fr.prev, fr.block = b, b.Succs[1]
				}
				next = true
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
				case 1:
					fr.result = copyVal(fr.get(x.Results[0]))
				default:
					t := make(Tuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = copyVal(fr.get(r))
					}
					fr.result = t
				}
				return
			default:
				fr.exec(in)
			}
			if next {
				break
			}
		}
		if !next {
			panic(engineError("fell off block in " + fr.fn.String()))
		}
	}
}

func (p *Path) stepLimit() {
	r, m := p.sol.check(nil, true)
	if r == Sat {
		p.addViolation("hang", "hang: the code runs on without end", m)
	}
	p.end("steps", "step limit at "+p.whereStack(p.cur.fr, 5))
}

func (p *Path) nilDeref() {
	p.panicRuntime("invalid memory address or nil pointer dereference")
}

func (p *Path) load(ptr Value) Value {
	switch a := ptr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		if p.race != nil {
			p.race.read(p, a)
		}
		return copyVal(*a)
	case BPtr:
		return p.readByte(a.a, a.i)
	}
	p.unsupported(fmt.Sprintf("load through %T", ptr))
	return nil
}
func (p *Path) store(ptr Value, v Value) {
	switch a := ptr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		if p.race != nil {
			p.race.write(p, a)
		}
		storeInto(a, v)
		return
	case BPtr:
		p.writeByte(a.a, a.i, v.(*Term))
		return
	}
	p.unsupported(fmt.Sprintf("store through %T", ptr))
}

func (p *Path) boundsCheck(i, n *Term, msg string) {
	ok := p.tc.bin(OpULt, i, n)
	if !p.branch(ok) {
		p.panicRuntime("index out of range" + msg)
	}
}

func (p *Path) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	_, sg, _ := intInfo(t)
	if x.w == 64 {
		return x
	}
	if sg {
		return p.tc.SExt(x, 64)
	}
	return p.tc.ZExt(x, 64)
}

func (fr *frame) exec(in ssa.Instruction) {
	p := fr.p
	tc := p.tc
	switch x := in.(type) {
	case *ssa.Alloc:
		c := new(Value)
		*c = p.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, c)
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, p.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fr.set(x, fr.call(&x.Call, x))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.MakeInterface:
		fr.set(x, Iface{x.X.Type(), copyVal(fr.get(x.X))})
	case *ssa.Convert:
		fr.set(x, p.convert(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, p.convert(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		p.unsupported("slice to array pointer")
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		fr.set(x, copyVal(fr.get(x.X).(Struct)[x.Field]))
	case *ssa.FieldAddr:
		a, ok := fr.get(x.X).(*Value)
		if !ok {
			p.unsupported(fmt.Sprintf("field of %T", fr.get(x.X)))
		}
		if a == nil {
			p.nilDeref()
		}
		s, ok := (*a).(Struct)
		if !ok {
			p.unsupported(fmt.Sprintf("field of %T (%s)", *a, x.X.Type()))
		}
		fr.set(x, &s[x.Field])
	case *ssa.Index:
		fr.set(x, fr.index(x))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := p.idx64(fr.get(x.Len), x.Len.Type())
		c := p.idx64(fr.get(x.Cap), x.Cap.Type())
		fr.set(x, p.makeSlice(et, n, c))
	case *ssa.MakeMap:
		fr.set(x, &MapV{kt: x.Type().Underlying().(*types.Map).Key()})
	case *ssa.MakeChan:
		n := p.concInt(p.idx64(fr.get(x.Size), x.Size.Type()))
		if n < 0 {
			p.throw(Iface{types.Typ[types.String], cstr("makechan: size out of range")}, true)
		}
		fr.set(x, &ChanV{cap: n, et: x.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeClosure:
		var fv []Value
		for _, b := range x.Bindings {
			fv = append(fv, fr.get(b))
		}
		fr.set(x, &Closure{fn: x.Fn.(*ssa.Function), free: fv})
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*MapV)
		p.mapSet(m, copyVal(fr.get(x.Key)), copyVal(fr.get(x.Value)))
	case *ssa.Range:
		fr.set(x, fr.rangeIter(x))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Store:
		p.store(fr.get(x.Addr), copyVal(fr.get(x.Val)))
	case *ssa.Send:
		p.chanSend(fr.get(x.Chan).(*ChanV), copyVal(fr.get(x.X)))
	case *ssa.Select:
		fr.set(x, fr.selectOp(x))
	case *ssa.Go:
		fn, args := fr.prepCall(&x.Call)
		if p.lenient > 0 {
			return
		}
		p.spawn(fn, args, "go@"+p.posOf(x))
	case *ssa.Defer:
		fn, args := fr.prepCall(&x.Call)
		tgt := fr
		if x.DeferStack != nil {
			if n, ok := fr.get(x.DeferStack).(*Native); ok {
				tgt = n.v.(*frame)
			}
		}
		tgt.defers = &deferred{fn, args, tgt.defers}
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(x.X)
		if i, ok := v.(Iface); ok && i.t == nil {
			p.panicRuntime("panic called with nil argument")
		}
		p.throw(v, false)
	default:
		p.unsupported(fmt.Sprintf("instruction %T", in))
	}
	_ = tc
}

func (p *Path) posOf(in ssa.Instruction) string {
	ps := p.ex.prog.fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
}

func (p *Path) spawn(fn *Closure, args []Value, name string) *G {
	if fn == nil {
		p.throw(Iface{types.Typ[types.String], cstr("go of nil func value")}, true)
	}
	g := p.newG(func() {
		if fn.bi != nil {
			p.builtin(nil, fn.bi, args, nil)
			return
		}
		p.callClosure(nil, fn, args)
	}, name)
	if p.race != nil {
		p.race.fork(p.cur, g)
	}
	p.makeReady(g)
	return g
}

// prepCall evaluates a call's function and arguments.
func (fr *frame) prepCall(c *ssa.CallCommon) (*Closure, []Value) {
	p := fr.p
	var args []Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.t == nil {
			p.nilDeref()
		}
		fn, rv := p.findMethod(recv, c.Method)
		args = append(args, rv)
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return fn, args
	}
	var cl *Closure
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		cl = &Closure{bi: f}
	case *ssa.Function:
		cl = p.ex.closureOf(f)
	default:
		v := fr.get(c.Value)
		var ok bool
		cl, ok = v.(*Closure)
		if !ok {
			p.unsupported(fmt.Sprintf("call of %T", v))
		}
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return cl, args
}

func (p *Path) findMethod(recv Iface, m *types.Func) (*Closure, Value) {
	if n, ok := recv.v.(*Native); ok {
		if f := nativeMethod(n, m.Name()); f != nil {
			return &Closure{nat: f}, recv.v
		}
	}
	fn := p.ex.lookupMethod(recv.t, m.Pkg(), m.Name())
	if fn == nil {
		p.unsupported("method " + m.Name() + " of " + recv.t.String())
	}
	return p.ex.closureOf(fn), copyVal(recv.v)
}

// callMethod calls a method of an interface value by name (nil closure if absent).
func (p *Path) methodByName(recv Iface, name string) *Closure {
	if recv.t == nil {
		return nil
	}
	if n, ok := recv.v.(*Native); ok {
		if f := nativeMethod(n, name); f != nil {
			return &Closure{nat: f}
		}
		return nil
	}
	fn := p.ex.lookupMethod(recv.t, nil, name)
	if fn == nil {
		return nil
	}
	return p.ex.closureOf(fn)
}

func (fr *frame) call(c *ssa.CallCommon, site ssa.Value) Value {
	p := fr.p
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var args []Value
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return p.builtin(fr, b, args, c)
	}
	fn, args := fr.prepCall(c)
	if fn == nil {
		p.nilDeref()
	}
	if fn.nat != nil {
		return fn.nat(p, args)
	}
	r := p.callFn(fr, fn.fn, args, fn.free)
	p.cur.fr = fr
	return r
}

func (fr *frame) unop(x *ssa.UnOp) Value {
	p := fr.p
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return p.load(v)
	case token.ARROW:
		ch := v.(*ChanV)
		val, ok := p.chanRecv(ch)
		if val == nil {
			val = p.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return Tuple{val, p.tc.Bool(ok)}
		}
		return val
	case token.NOT:
		return p.tc.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return p.tc.Neg(v.(*Term))
	case token.XOR:
		return p.tc.BNot(v.(*Term))
	}
	p.unsupported("unop " + x.Op.String())
	return nil
}

func (p *Path) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	tc := p.tc
	switch op {
	case token.EQL:
		return p.eqVal(x, y)
	case token.NEQ:
		return tc.Not(p.eqVal(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, sg, _ := intInfo(t)
		switch op {
		case token.ADD:
			return tc.Add(a, b)
		case token.SUB:
			return tc.Sub(a, b)
		case token.MUL:
			return tc.bin(OpMul, a, b)
		case token.QUO, token.REM:
			if p.branch(tc.Eq(b, tc.BV(b.w, 0))) {
				p.panicRuntime("integer divide by zero")
			}
			o := OpUDiv
			switch {
			case op == token.QUO && sg:
				o = OpSDiv
			case op == token.REM && sg:
				o = OpSRem
			case op == token.REM:
				o = OpURem
			}
			return tc.bin(o, a, b)
		case token.AND:
			if a.w == 0 {
				return tc.And(a, b)
			}
			return tc.bin(OpBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return tc.Or(a, b)
			}
			return tc.bin(OpBOr, a, b)
		case token.XOR:
			return tc.bin(OpBXor, a, b)
		case token.AND_NOT:
			return tc.bin(OpBAnd, a, tc.BNot(b))
		case token.SHL, token.SHR:
			_, ysg, _ := intInfo(yt)
			if ysg {
				if p.branch(tc.bin(OpSLt, b, tc.BV(b.w, 0))) {
					p.panicRuntime("negative shift amount")
				}
			}
			// widen the shift count to the width of a, saturating
			var sh *Term
			if b.w == a.w {
				sh = b
			} else if b.w < a.w {
				sh = tc.ZExt(b, a.w)
			} else {
				big := tc.bin(OpULe, tc.BV(b.w, uint64(a.w)), b)
				sh = tc.Ite(big, tc.BV(a.w, uint64(a.w)), tc.Extract(b, a.w-1, 0))
			}
			if op == token.SHL {
				return tc.bin(OpShl, a, sh)
			}
			if sg {
				return tc.bin(OpAShr, a, sh)
			}
			return tc.bin(OpLShr, a, sh)
		case token.LSS:
			if sg {
				return tc.bin(OpSLt, a, b)
			}
			return tc.bin(OpULt, a, b)
		case token.LEQ:
			if sg {
				return tc.bin(OpSLe, a, b)
			}
			return tc.bin(OpULe, a, b)
		case token.GTR:
			if sg {
				return tc.bin(OpSLt, b, a)
			}
			return tc.bin(OpULt, b, a)
		case token.GEQ:
			if sg {
				return tc.bin(OpSLe, b, a)
			}
			return tc.bin(OpULe, b, a)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return tc.Bool(a < b)
		case token.LEQ:
			return tc.Bool(a <= b)
		case token.GTR:
			return tc.Bool(a > b)
		case token.GEQ:
			return tc.Bool(a >= b)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return p.strConcat(a, b)
		}
		c := p.strCompare(a, b)
		switch op {
		case token.LSS:
			return tc.Bool(c < 0)
		case token.LEQ:
			return tc.Bool(c <= 0)
		case token.GTR:
			return tc.Bool(c > 0)
		case token.GEQ:
			return tc.Bool(c >= 0)
		}
	}
	p.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

// strCompare forks byte by byte.
func (p *Path) strCompare(a, b Str) int {
	a, b = p.forceStr(a), p.forceStr(b)
	if a.conc() && b.conc() {
		return strings.Compare(a.s, b.s)
	}
	xs, ys := p.strBytes(a), p.strBytes(b)
	for i := 0; i < len(xs) && i < len(ys); i++ {
		if p.branch(p.tc.Eq(xs[i], ys[i])) {
			continue
		}
		if p.branch(p.tc.bin(OpULt, xs[i], ys[i])) {
			return -1
		}
		return 1
	}
	switch {
	case len(xs) < len(ys):
		return -1
	case len(xs) > len(ys):
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- aggregates

const maxAlloc = int64(1) << 47

func (p *Path) makeSlice(et types.Type, n, c *Term) Value {
	tc := p.tc
	es := p.ex.sizes.Sizeof(et)
	if es == 0 {
		es = 1
	}
	lim := tc.Int(maxAlloc / es)
	bad := tc.Or(tc.bin(OpSLt, n, tc.Int(0)), tc.bin(OpSLt, lim, n))
	if p.branch(bad) {
		p.throw(Iface{p.ex.rtErrType, cstr("makeslice: len out of range")}, true)
	}
	if c != n {
		if p.branch(tc.Or(tc.bin(OpSLt, c, n), tc.bin(OpSLt, lim, c))) {
			p.throw(Iface{p.ex.rtErrType, cstr("makeslice: cap out of range")}, true)
		}
	}
	// memory the process cannot have
	if p.branch(tc.bin(OpSLt, tc.Int((int64(24)<<30)/es), c)) {
		p.crashOOM()
	}
	if isByteType(et) {
		return Slice{p.newBArrZero(c), tc.Int(0), n, c}
	}
	cc := p.concInt(c)
	nn := p.concInt(n)
	if cc > 1<<22 {
		p.end("unsupported", "huge slice allocation")
	}
	g := &GArr{e: make([]Value, cc)}
	for i := range g.e {
		g.e[i] = p.zero(et)
	}
	return Slice{g, tc.Int(0), tc.Int(int64(nn)), tc.Int(int64(cc))}
}

func (p *Path) crashOOM() {
	r, m := p.sol.check(nil, true)
	if r == Sat {
		p.addViolation("panic", "crash: out of memory", m)
	}
	p.end("violation", "allocation of more memory than the machine has "+p.whereStack(p.cur.fr, 5))
}

func (fr *frame) index(x *ssa.Index) Value {
	p := fr.p
	i := p.idx64(fr.get(x.Index), x.Index.Type())
	switch a := fr.get(x.X).(type) {
	case Str:
		p.boundsCheck(i, p.strLen(a), "")
		return p.strIndex(a, i)
	case Array:
		p.boundsCheck(i, p.tc.Int(int64(len(a))), "")
		return copyVal(p.pickVal(a, i))
	case *BArr:
		p.boundsCheck(i, a.size, "")
		return p.readByte(a, i)
	default:
		p.unsupported(fmt.Sprintf("index of %T", a))
	}
	return nil
}

func (p *Path) pickVal(a []Value, i *Term) Value {
	if i.IsConst() {
		return a[i.c]
	}
	if len(a) > 0 && len(a) <= 256 {
		if _, ok := a[0].(*Term); ok {
			ts := make([]*Term, len(a))
			for k := range a {
				ts[k] = a[k].(*Term)
			}
			return p.pick(ts, i)
		}
	}
	return a[p.concInt(i)]
}

func (fr *frame) indexAddr(x *ssa.IndexAddr) Value {
	p := fr.p
	i := p.idx64(fr.get(x.Index), x.Index.Type())
	switch a := fr.get(x.X).(type) {
	case Slice:
		p.boundsCheck(i, a.len, "")
		pos := p.tc.Add(a.off, i)
		switch b := a.b.(type) {
		case *BArr:
			return BPtr{b, pos}
		case *GArr:
			return &b.e[p.concInt(pos)]
		}
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		switch b := (*a).(type) {
		case Array:
			p.boundsCheck(i, p.tc.Int(int64(len(b))), "")
			return &b[p.concInt(i)]
		case *BArr:
			p.boundsCheck(i, b.size, "")
			return BPtr{b, i}
		}
	}
	p.unsupported(fmt.Sprintf("indexaddr of %T", fr.get(x.X)))
	return nil
}

func (fr *frame) slice(x *ssa.Slice) Value {
	p := fr.p
	tc := p.tc
	v := fr.get(x.X)
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = p.idx64(fr.get(x.Low), x.Low.Type())
	} else {
		lo = tc.Int(0)
	}
	if x.High != nil {
		hi = p.idx64(fr.get(x.High), x.High.Type())
	}
	if x.Max != nil {
		mx = p.idx64(fr.get(x.Max), x.Max.Type())
	}
	if s, ok := v.(Str); ok {
		n := p.strLen(s)
		if hi == nil {
			hi = n
		}
		p.sliceCheck(lo, hi, n)
		return p.strSlice(s, lo, hi)
	}
	var base interface{}
	var off, ln, cp *Term
	switch a := v.(type) {
	case Slice:
		base, off, ln, cp = a.b, a.off, a.len, a.cap
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		off = tc.Int(0)
		switch b := (*a).(type) {
		case Array:
			// share the elements
			base = &GArr{e: b}
			ln = tc.Int(int64(len(b)))
		case *BArr:
			base = b
			ln = b.size
		default:
			p.unsupported(fmt.Sprintf("slice of *%T", *a))
		}
		cp = ln
	default:
		p.unsupported(fmt.Sprintf("slice of %T", v))
	}
	if hi == nil {
		hi = ln
	}
	if mx != nil {
		p.sliceCheck(hi, mx, cp)
		p.sliceCheck(lo, hi, mx)
	} else {
		mx = cp
		p.sliceCheck(lo, hi, cp)
	}
	if base == nil {
		return p.nilSlice()
	}
	return Slice{base, tc.Add(off, lo), tc.Sub(hi, lo), tc.Sub(mx, lo)}
}

// sliceCheck: 0 <= lo <= hi <= cap
func (p *Path) sliceCheck(lo, hi, cp *Term) {
	tc := p.tc
	if !p.branch(tc.bin(OpULe, hi, cp)) {
		p.panicRuntime("slice bounds out of range")
	}
	if !p.branch(tc.bin(OpULe, lo, hi)) {
		p.panicRuntime("slice bounds out of range")
	}
}

// ---------------------------------------------------------------- maps

func (p *Path) mapFind(m *MapV, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.panicRuntime("hash of unhashable type " + i.t.String())
	}
	for _, e := range m.ents {
		c := p.eqVal(e.k, k)
		if c.IsConst() {
			if c.c == 1 {
				return e
			}
			continue
		}
		if p.branch(c) {
			return e
		}
	}
	return nil
}
func (p *Path) mapSet(m *MapV, k, v Value) {
	if m == nil {
		p.throw(Iface{p.ex.rtErrType, cstr("assignment to entry in nil map")}, true)
	}
	if p.race != nil {
		p.race.writeObj(p, m, "map")
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	m.ents = append(m.ents, &MapEntry{k, v})
}
func (p *Path) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if p.race != nil {
		p.race.writeObj(p, m, "map")
	}
	if e := p.mapFind(m, k); e != nil {
		out := make([]*MapEntry, 0, len(m.ents))
		for _, x := range m.ents {
			if x != e {
				out = append(out, x)
			}
		}
		m.ents = out
	}
}

func (fr *frame) lookup(x *ssa.Lookup) Value {
	p := fr.p
	switch m := fr.get(x.X).(type) {
	case Str:
		i := p.idx64(fr.get(x.Index), x.Index.Type())
		p.boundsCheck(i, p.strLen(m), "")
		return p.strIndex(m, i)
	case *MapV:
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		if p.race != nil && m != nil {
			p.race.readObj(p, m, "map")
		}
		e := p.mapFind(m, fr.get(x.Index))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = p.zero(vt)
		}
		if x.CommaOk {
			return Tuple{v, p.tc.Bool(e != nil)}
		}
		return v
	}
	p.unsupported("lookup")
	return nil
}

type iterMap struct {
	m    *MapV
	ents []*MapEntry
	i    int
}
type iterStr struct {
	s   Str
	pos int
}

func permute(n, k int) []int {
	// k-th permutation of 0..n-1
	avail := make([]int, n)
	for i := range avail {
		avail[i] = i
	}
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	var out []int
	for i := n - 1; i >= 0; i-- {
		j := k / f
		k %= f
		out = append(out, avail[j])
		avail = append(append([]int{}, avail[:j]...), avail[j+1:]...)
		if i > 0 {
			f /= i
		}
	}
	return out
}

func (fr *frame) rangeIter(x *ssa.Range) Value {
	p := fr.p
	switch v := fr.get(x.X).(type) {
	case *MapV:
		it := &iterMap{m: v}
		if v != nil {
			if p.race != nil {
				p.race.readObj(p, v, "map")
			}
			it.ents = append(it.ents, v.ents...)
			n := len(it.ents)
			if n > 1 && fr.info.inRepo && p.lenient == 0 && !p.cfg.insertOrder {
				var perm []int
				switch {
				case n == 2:
					perm = permute(2, p.choose(2, "maporder"))
				case n == 3:
					perm = permute(3, p.choose(6, "maporder"))
				default:
					p.notes = append(p.notes, "map iteration order: insertion and reverse order only")
					if p.choose(2, "maporder") == 1 {
						for i := n - 1; i >= 0; i-- {
							perm = append(perm, i)
						}
					}
				}
				if perm != nil {
					e2 := make([]*MapEntry, n)
					for i, k := range perm {
						e2[i] = it.ents[k]
					}
					it.ents = e2
				}
			}
		}
		return &Native{"iter", it}
	case Str:
		return &Native{"iter", &iterStr{s: p.forceStr(v)}}
	}
	p.unsupported("range")
	return nil
}

func (fr *frame) next(x *ssa.Next) Value {
	p := fr.p
	n := fr.get(x.Iter).(*Native)
	switch it := n.v.(type) {
	case *iterMap:
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			live := false
			for _, y := range it.m.ents {
				if y == e {
					live = true
				}
			}
			if live {
				return Tuple{p.tc.True, copyVal(e.k), copyVal(e.v)}
			}
		}
		tt := x.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return p.zero(t)
		}
		return Tuple{p.tc.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	case *iterStr:
		bs := p.strBytes(it.s)
		if it.pos >= len(bs) {
			return Tuple{p.tc.False, p.tc.Int(0), p.tc.BV(32, 0)}
		}
		pos := it.pos
		b := bs[pos]
		if p.branch(p.tc.bin(OpULt, b, p.tc.BV(8, 0x80))) {
			it.pos++
			return Tuple{p.tc.True, p.tc.Int(int64(pos)), p.tc.ZExt(b, 32)}
		}
		var buf []byte
		for k := pos; k < len(bs) && k < pos+4; k++ {
			buf = append(buf, byte(p.concTerm(bs[k])))
			if utf8.FullRune(buf) {
				break
			}
		}
		r, sz := utf8.DecodeRune(buf)
		it.pos += sz
		return Tuple{p.tc.True, p.tc.Int(int64(pos)), p.tc.BV(32, uint64(r))}
	}
	panic("next")
}

// ---------------------------------------------------------------- interfaces

func (fr *frame) typeAssert(x *ssa.TypeAssert) Value {
	p := fr.p
	v := fr.get(x.X).(Iface)
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && p.ex.implements(v.t, it) {
			ok = true
			r = v
		}
	} else if v.t != nil && (v.t == x.AssertedType || types.Identical(v.t, x.AssertedType)) {
		ok = true
		r = copyVal(v.v)
	}
	if x.CommaOk {
		if !ok {
			r = p.zero(x.AssertedType)
		}
		return Tuple{r, p.tc.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		p.panicRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
	}
	return r
}

// ---------------------------------------------------------------- conversions

func (p *Path) convert(v Value, from, to types.Type) Value {
	tc := p.tc
	ut, uf := to.Underlying(), from.Underlying()
	if fw, fs, ok := intInfo(uf); ok && fw > 0 {
		if tw, _, ok := intInfo(ut); ok && tw > 0 {
			t := v.(*Term)
			if tw <= fw {
				return tc.Extract(t, tw-1, 0)
			}
			if fs {
				return tc.SExt(t, tw)
			}
			return tc.ZExt(t, tw)
		}
		if b, ok := ut.(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				t := v.(*Term)
				c := sx(p.concTerm(t), t.w)
				return cstr(string(rune(c)))
			}
			if b.Info()&types.IsFloat != 0 {
				t := v.(*Term)
				c := p.concTerm(t)
				var f float64
				if fs {
					f = float64(sx(c, t.w))
				} else {
					f = float64(c)
				}
				if b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			}
			if b.Kind() == types.UnsafePointer {
				return (*Value)(nil)
			}
		}
	}
	if f, ok := v.(float64); ok {
		if tw, ts, ok := intInfo(ut); ok {
			if ts {
				return tc.BV(tw, uint64(int64(f)))
			}
			return tc.BV(tw, uint64(f))
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	switch u := ut.(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				et := uf.(*types.Slice).Elem()
				if isByteType(et) {
					return p.strFromSegs(p.sliceSegs(x), x.len)
				}
				// runes
				var sb []*Term
				n := p.concInt(x.len)
				o := p.concInt(x.off)
				for i := 0; i < n; i++ {
					r := x.b.(*GArr).e[o+i].(*Term)
					if r.IsConst() {
						for _, c := range []byte(string(rune(int32(r.c)))) {
							sb = append(sb, tc.BV(8, uint64(c)))
						}
						continue
					}
					if p.branch(tc.bin(OpULt, r, tc.BV(32, 0x80))) {
						sb = append(sb, tc.Extract(r, 7, 0))
						continue
					}
					for _, c := range []byte(string(rune(int32(p.concTerm(r))))) {
						sb = append(sb, tc.BV(8, uint64(c)))
					}
				}
				return p.mkStr(sb)
			}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr {
			if u.Kind() == types.Uintptr {
				return tc.BV(64, 0x1000)
			}
			return v
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			if isByteType(u.Elem()) {
				s = p.forceStr(s)
				segs := p.strSegs(s)
				n := p.strLen(s)
				a := &BArr{segs: segs, size: n}
				return Slice{a, tc.Int(0), n, n}
			}
			// runes
			it := &iterStr{s: p.forceStr(s)}
			g := &GArr{}
			bs := p.strBytes(it.s)
			for it.pos < len(bs) {
				b := bs[it.pos]
				if p.branch(tc.bin(OpULt, b, tc.BV(8, 0x80))) {
					g.e = append(g.e, tc.ZExt(b, 32))
					it.pos++
					continue
				}
				var buf []byte
				for k := it.pos; k < len(bs) && k < it.pos+4; k++ {
					buf = append(buf, byte(p.concTerm(bs[k])))
					if utf8.FullRune(buf) {
						break
					}
				}
				r, sz := utf8.DecodeRune(buf)
				it.pos += sz
				g.e = append(g.e, tc.BV(32, uint64(r)))
			}
			n := tc.Int(int64(len(g.e)))
			return Slice{g, tc.Int(0), n, n}
		}
		return v
	case *types.Pointer:
		return v
	}
	return v
}

// ---------------------------------------------------------------- builtins

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, es int64) int64 {
	c := oldCap
	if newLen > 2*oldCap {
		c = newLen
	} else if oldCap < 256 {
		c = 2 * oldCap
	} else {
		for c < newLen {
			c += (c + 3*256) >> 2
		}
	}
	if es <= 0 {
		return c
	}
	sz := c * es
	if sz <= 32768 {
		for _, k := range sizeClasses {
			if k >= sz {
				return k / es
			}
		}
	}
	sz = (sz + 8191) / 8192 * 8192
	return sz / es
}

func (p *Path) appendSlice(s Slice, add Slice, et types.Type) Slice {
	tc := p.tc
	if add.len.IsConst() && add.len.c == 0 {
		return s
	}
	nl := tc.Add(s.len, add.len)
	isB := isByteType(et)
	if isB {
		if g, ok := s.b.(*GArr); ok {
			// normalise to a byte array
			var lit []*Term
			for _, e := range g.e {
				lit = append(lit, e.(*Term))
			}
			s.b = p.newBArrLit(lit)
		}
		segs := p.sliceSegs(add)
		if s.b != nil && p.branch(tc.bin(OpSLe, nl, s.cap)) {
			p.replace(s.b.(*BArr), tc.Add(s.off, s.len), add.len, segs)
			if p.race != nil {
				p.race.writeObj(p, s.b, "bytes")
			}
			return Slice{s.b, s.off, nl, s.cap}
		}
		old := p.sliceSegs(s)
		var nc *Term
		if nl.IsConst() && s.cap.IsConst() {
			nc = tc.Int(growCap(int64(s.cap.c), int64(nl.c), 1))
		} else {
			nc = nl
		}
		a := &BArr{size: nc}
		a.segs = append(append([]Seg{}, old...), segs...)
		if nc != nl {
			a.segs = append(a.segs, Seg{n: tc.Sub(nc, nl), zero: true})
		}
		a.segs = p.coalesce(a.segs)
		return Slice{a, tc.Int(0), nl, nc}
	}
	var vals []Value
	o, n := p.concInt(add.off), p.concInt(add.len)
	for i := 0; i < n; i++ {
		vals = append(vals, copyVal(add.b.(*GArr).e[o+i]))
	}
	so, sl, sc := p.concInt(s.off), p.concInt(s.len), p.concInt(s.cap)
	if s.b != nil && sl+n <= sc {
		g := s.b.(*GArr)
		for i, v := range vals {
			if p.race != nil {
				p.race.write(p, &g.e[so+sl+i])
			}
			storeInto(&g.e[so+sl+i], v)
		}
		return Slice{s.b, s.off, tc.Int(int64(sl + n)), s.cap}
	}
	nc := int(growCap(int64(sc), int64(sl+n), p.ex.sizes.Sizeof(et)))
	if nc < sl+n {
		nc = sl + n
	}
	g := &GArr{e: make([]Value, nc)}
	for i := 0; i < sl; i++ {
		g.e[i] = copyVal(s.b.(*GArr).e[so+i])
	}
	for i, v := range vals {
		g.e[sl+i] = v
	}
	for i := sl + n; i < nc; i++ {
		g.e[i] = p.zero(et)
	}
	return Slice{g, tc.Int(0), tc.Int(int64(sl + n)), tc.Int(int64(nc))}
}

func (p *Path) copySlice(dst, src Slice) *Term {
	tc := p.tc
	n := dst.len
	if n != src.len {
		if p.branch(tc.bin(OpSLt, src.len, dst.len)) {
			n = src.len
		}
	}
	if n.IsConst() && n.c == 0 || dst.b == nil || src.b == nil {
		return n
	}
	if d, ok := dst.b.(*BArr); ok {
		s2 := src
		s2.len = n
		segs := p.sliceSegs(s2)
		p.replace(d, dst.off, n, segs)
		return n
	}
	c := p.concInt(n)
	do, so := p.concInt(dst.off), p.concInt(src.off)
	dg := dst.b.(*GArr)
	vals := make([]Value, c)
	if sb, ok := src.b.(*BArr); ok {
		for i, t := range p.litBytes(sb, src.off, n) {
			vals[i] = t
		}
	} else {
		for i := 0; i < c; i++ {
			vals[i] = copyVal(src.b.(*GArr).e[so+i])
		}
	}
	for i := 0; i < c; i++ {
		if p.race != nil {
			p.race.write(p, &dg.e[do+i])
		}
		storeInto(&dg.e[do+i], vals[i])
	}
	return n
}

func (p *Path) strToSlice(s Str) Slice {
	s = p.forceStr(s)
	n := p.strLen(s)
	return Slice{&BArr{segs: p.strSegs(s), size: n}, p.tc.Int(0), n, n}
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	tc := p.tc
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return p.strLen(x)
		case Slice:
			return x.len
		case *MapV:
			if x == nil {
				return tc.Int(0)
			}
			if p.race != nil {
				p.race.readObj(p, x, "map")
			}
			return tc.Int(int64(len(x.ents)))
		case *ChanV:
			if x == nil {
				return tc.Int(0)
			}
			return tc.Int(int64(len(x.buf)))
		case Array:
			return tc.Int(int64(len(x)))
		case *BArr:
			return x.size
		case *Value:
			switch y := (*x).(type) {
			case Array:
				return tc.Int(int64(len(y)))
			case *BArr:
				return y.size
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *ChanV:
			if x == nil {
				return tc.Int(0)
			}
			return tc.Int(int64(x.cap))
		case Array:
			return tc.Int(int64(len(x)))
		case *BArr:
			return x.size
		}
	case "append":
		s := args[0].(Slice)
		var add Slice
		var et types.Type
		if c != nil {
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		if et == nil {
			et = b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		if len(args) < 2 {
			return s
		}
		switch y := args[1].(type) {
		case Str:
			add = p.strToSlice(y)
		case Slice:
			add = y
		}
		return p.appendSlice(s, add, et)
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Str:
			return p.copySlice(d, p.strToSlice(y))
		case Slice:
			return p.copySlice(d, y)
		}
	case "close":
		p.chanClose(args[0].(*ChanV))
		return nil
	case "delete":
		p.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.ents = nil
			}
			return nil
		case Slice:
			switch bb := x.b.(type) {
			case nil:
				return nil
			case *BArr:
				p.replace(bb, x.off, x.len, []Seg{{n: x.len, zero: true}})
				return nil
			}
		}
	case "recover":
		return p.doRecover(fr)
	case "panic":
		p.throw(args[0], false)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				_, sg, _ := intInfo(t)
				op := OpULt
				if sg {
					op = OpSLt
				}
				lt := tc.bin(op, a, y.(*Term))
				if b.Name() == "max" {
					lt = tc.bin(op, y.(*Term), a)
				}
				r = tc.Ite(lt, a, y.(*Term))
			case float64:
				if b.Name() == "min" && y.(float64) < a || b.Name() == "max" && y.(float64) > a {
					r = y
				}
			default:
				p.unsupported("min/max")
			}
		}
		return r
	case "ssa:wrapnilchk":
		if a, ok := args[0].(*Value); ok && a == nil {
			p.panicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &Native{"deferstack", fr}
	case "String": // unsafe.String
		n := p.idx64(args[1], types.Typ[types.Int])
		if bp, ok := args[0].(BPtr); ok {
			return p.strFromSegs(p.extract(bp.a, bp.i, n), n)
		}
		return cstr("")
	case "StringData":
		s := p.strToSlice(args[0].(Str))
		return BPtr{s.b.(*BArr), tc.Int(0)}
	case "SliceData":
		s := args[0].(Slice)
		switch bb := s.b.(type) {
		case *BArr:
			return BPtr{bb, s.off}
		case *GArr:
			if len(bb.e) > 0 {
				return &bb.e[p.concInt(s.off)]
			}
		}
		return (*Value)(nil)
	case "Slice": // unsafe.Slice
		n := p.idx64(args[1], types.Typ[types.Int])
		if bp, ok := args[0].(BPtr); ok {
			return Slice{bp.a, bp.i, n, n}
		}
		if n.IsConst() && n.c == 0 {
			return p.nilSlice()
		}
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

var _ = runtime.Goexit
