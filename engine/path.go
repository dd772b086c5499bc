package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	k byte // 'b' branch, 'c' choice, 'v' picked value
	v uint64
}

type Item struct {
	h      *Harness
	base   []Dec // decisions of the path it was forked from
	last   Dec
	forked bool
	model  *Model
	depth  int
}

func (it Item) prefix() []Dec {
	if !it.forked {
		return nil
	}
	return append(append(make([]Dec, 0, len(it.base)+1), it.base...), it.last)
}

// Violation is a candidate found by the engine, to be replayed natively.
type Violation struct {
	Label string
	Kind  string // assert, panic, hang, race
	Vars  map[string]uint64
	Bytes map[string]map[string]uint64
	Sched []SchedSeg
	Trace []string
	Obs   []string
}
type SchedSeg struct {
	T    int `json:"t"`
	Stop int `json:"stop"`
}

type input struct {
	name string
	t    *Term  // scalar
	src  string // byte source
	w    uint8
}

// Worker explores paths one after another; it owns a term context and a solver.
type Worker struct {
	id       int
	ex       *Explorer
	tc       *TC
	sol      *Solver
	baseGlob map[*ssa.Global]*Value
	inited   map[*ssa.Package]int
	consts   map[*ssa.Const]Value
	fns      map[*ssa.Function]int
	funcSeen map[*ssa.Function]bool
}

type Outcome struct {
	kind   string // done, assume, unsupported, violation, steps, hang, engine
	detail string
}

// Path is one execution.
type Path struct {
	w    *Worker
	tc   *TC
	sol  *Solver
	ex   *Explorer
	cfg  *HCfg
	item Item

	prefix []Dec
	pos    int
	dec    []Dec
	model  *Model
	memo   map[*Term]uint64

	// heap
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	side    map[interface{}]interface{}

	// scheduling
	gs       []*G
	cur      *G
	runq     []*G
	idleq    []*G
	timers   []*timer
	now      *Term
	killed   bool
	wg       sync.WaitGroup
	doneCh   chan Outcome
	ended    bool
	outcome  Outcome
	explore  int
	parG     map[*G]int
	sched    []SchedSeg
	parY     map[*G]int
	timerSeq int

	inputs   []input
	cnt      map[string]int
	obs      []obsRec
	reached  []string
	steps    int
	maxSteps int
	lenient  int
	notes    []string
	asserts  int
	narrowed bool
	race     *raceState
	incomplete string
	viols    []*Violation
	handles  []handleRec
	spins    int
	forks    int
	h        *Harness
	timerFired int
	triv, discharged int
	noBubble bool
	nondet   bool
}

type handleRec struct {
	codec string
	v     Value
	t     types.Type
}

type obsRec struct {
	label string
	kind  byte
	t     *Term
	s     Str
	b     Slice
	segs  []Seg
	n     *Term
}

func (p *Path) end(kind, detail string) {
	if !p.ended {
		p.ended = true
		p.outcome = Outcome{kind, detail}
	}
	runtime.Goexit()
}

func (p *Path) unsupported(what string) {
	if p.lenient > 0 {
		panic(lenientFail(what))
	}
	where := ""
	if p.cur != nil && p.cur.fr != nil {
		where = p.whereStack(p.cur.fr, 4)
	}
	p.end("unsupported", what+" at "+where)
}

type lenientFail string

func (p *Path) whereStack(fr *frame, n int) string {
	var sb strings.Builder
	for f := fr; f != nil && n > 0; f = f.caller {
		n--
		pos := ""
		if f.instr != nil && f.instr.Pos().IsValid() {
			ps := p.ex.prog.fset.Position(f.instr.Pos())
			pos = fmt.Sprintf("%s:%d", ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
		}
		sb.WriteString(fmt.Sprintf(" <- %s(%s)", f.fn.String(), pos))
	}
	return sb.String()
}

// ---------------------------------------------------------------- decisions

func (p *Path) assume(c *Term) {
	if c.IsFalse() {
		p.end("assume", "")
	}
	p.sol.assert(c)
}

func (p *Path) evalM(t *Term) uint64 {
	if p.memo == nil {
		p.memo = map[*Term]uint64{}
	}
	return p.model.eval(t, p.memo)
}

func (p *Path) setModel(m *Model) {
	p.model = m
	p.memo = nil
}

// ensureModel makes p.model a model of the path condition; false if infeasible.
func (p *Path) ensureModel() bool {
	if p.model != nil {
		return true
	}
	r, m := p.sol.check(nil, true)
	switch r {
	case Unsat:
		return false
	case Unknown:
		p.end("unknown", "solver gave no answer for the path condition")
	}
	p.setModel(m)
	return true
}

func (p *Path) fork(d Dec, m *Model) {
	// p.dec only grows, so what it holds now is shared by all forks
	n := len(p.dec)
	p.forks++
	p.ex.push(Item{h: p.h, base: p.dec[:n:n], last: d, forked: true, model: m, depth: p.item.depth + 1})
}

// branch decides a condition, forking when both sides are possible.
func (p *Path) branch(c *Term) bool {
	if c.IsConst() {
		return c.c == 1
	}
	nc := p.tc.Not(c)
	if p.sol.pcSet[c] {
		return true
	}
	if p.sol.pcSet[nc] {
		return false
	}
	if v, ok := p.sol.decided(c, 6); ok {
		return v == 1
	}
	if p.lenient > 0 {
		p.unsupported("symbolic branch in initialiser")
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.k != 'b' {
			p.end("engine", fmt.Sprintf("replay divergence: branch vs %c at %d %s", d.k, p.pos, p.whereStack(p.cur.fr, 6)))
		}
		p.pos++
		p.dec = append(p.dec, d)
		if d.v == 1 {
			p.assume(c)
			return true
		}
		p.assume(nc)
		return false
	}
	if !p.ensureModel() {
		p.end("assume", "infeasible")
	}
	v := p.evalM(c)
	other := c
	if v == 1 {
		other = nc
	}
	r, m := p.sol.check([]*Term{other}, true)
	switch r {
	case Sat:
		p.fork(Dec{'b', 1 - v}, m)
	case Unknown:
		p.ex.noteUnknown(p, other)
	}
	p.dec = append(p.dec, Dec{'b', v})
	p.pos++
	if v == 1 {
		p.assume(c)
		return true
	}
	p.assume(nc)
	return false
}

// choose is an n-way nondeterministic choice.
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if p.lenient > 0 {
		return 0
	}
	if !strings.HasPrefix(what, "input ") {
		p.nondet = true
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.k != 'c' {
			p.end("engine", fmt.Sprintf("replay divergence: choice %s vs %c", what, d.k))
		}
		p.pos++
		p.dec = append(p.dec, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(Dec{'c', uint64(i)}, p.model)
	}
	p.dec = append(p.dec, Dec{'c', 0})
	p.pos++
	return 0
}

// concTerm makes a term constant, forking over its possible values.
func (p *Path) concTerm(t *Term) uint64 {
	if t.IsConst() {
		return t.c
	}
	if v, ok := p.sol.decided(t, 6); ok {
		return v
	}
	if p.lenient > 0 {
		p.unsupported("symbolic value in initialiser")
	}
	for k := 0; ; k++ {
		var v uint64
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			if d.k != 'v' {
				p.end("engine", fmt.Sprintf("replay divergence: value vs %c", d.k))
			}
			p.pos++
			p.dec = append(p.dec, d)
			v = d.v
		} else {
			if !p.ensureModel() {
				p.end("assume", "infeasible")
			}
			v = p.evalM(t)
			p.dec = append(p.dec, Dec{'v', v})
			p.pos++
		}
		if k >= p.cfg.maxConc {
			p.incomplete = "concretisation limit"
			p.end("cut", "too many values of a term made explicit at "+p.whereStack(p.cur.fr, 4))
		}
		if p.branch(p.tc.Eq(t, p.tc.BV(t.w, v))) {
			return v
		}
	}
}
func (p *Path) concInt(t *Term) int { return int(sx(p.concTerm(t), t.w)) }

// ---------------------------------------------------------------- goroutines

type G struct {
	id     int
	wake   chan struct{}
	fr     *frame
	done   bool
	why    string
	name   string
	ready  bool
	// select/chan wait result
	selIdx int
	selVal Value
	selOK  bool
	vc     []int32
	mainG  bool
	parked bool
	yields int
	timeW  bool
	depth  int
}

func (p *Path) newG(f func(), name string) *G {
	g := &G{id: len(p.gs), wake: make(chan struct{}, 1), name: name}
	p.gs = append(p.gs, g)
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		<-g.wake
		if p.killed {
			return
		}
		normal, handed := false, false
		defer func() {
			if !p.killed && !handed {
				p.doneCh <- p.outcome
			}
		}()
		defer func() {
			r := recover()
			if p.killed {
				return
			}
			g.done = true
			if r != nil && !p.ended {
				p.ended = true
				if tp, ok := r.(*targetPanic); ok {
					p.crash(tp)
				} else {
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i > 0 {
						st = st[i:]
					}
					if len(st) > 1500 {
						st = st[:1500]
					}
					w := ""
					if g.fr != nil {
						w = p.whereStack(g.fr, 6)
					}
					p.outcome = Outcome{"engine", fmt.Sprintf("%v at %s\n%s", r, w, st)}
				}
			}
			if !normal && !p.ended {
				p.ended = true
				p.outcome = Outcome{"engine", "goroutine exit"}
			}
			if p.ended {
				return
			}
			if g.mainG {
				p.ended = true
				p.outcome = Outcome{"done", ""}
				return
			}
			n := p.pickNext()
			if n == nil {
				return
			}
			handed = true
			p.cur = n
			n.wake <- struct{}{}
		}()
		f()
		normal = true
	}()
	return g
}

func (p *Path) makeReady(g *G) {
	if g.ready || g.done {
		return
	}
	g.ready = true
	p.runq = append(p.runq, g)
}

// park blocks the current goroutine until somebody makes it ready.
func (p *Path) park(why string) {
	g := p.cur
	if p.lenient > 0 {
		p.unsupported("blocking in initialiser")
	}
	g.why = why
	g.ready = false
	p.recordSwitch(g, -1)
	p.switchFrom(g)
	g.why = ""
}

func (p *Path) switchFrom(g *G) {
	n := p.pickNext()
	if n == nil {
		runtime.Goexit() // outcome set
	}
	if n == g {
		return
	}
	p.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if p.killed {
		runtime.Goexit()
	}
}

// pickNext chooses the next goroutine; nil when the path is over.
func (p *Path) pickNext() *G {
	for {
		if len(p.runq) > 0 {
			k := 0
			if p.explore > 0 && len(p.runq) > 1 {
				k = p.choose(len(p.runq), "sched")
				if k != 0 {
					p.explore--
				}
			}
			g := p.runq[k]
			p.runq = append(append([]*G{}, p.runq[:k]...), p.runq[k+1:]...)
			if g.done {
				continue
			}
			g.ready = false
			return g
		}
		if len(p.idleq) > 0 {
			g := p.idleq[0]
			p.idleq = p.idleq[1:]
			return g
		}
		if p.fireTimer() {
			continue
		}
		if p.ended {
			return nil
		}
		p.ended = true
		p.hang()
		return nil
	}
}

// yield lets other runnable goroutines go first (only with explore budget).
func (p *Path) yieldPoint() {
	g := p.cur
	if p.lenient > 0 {
		return
	}
	yn := g.yields
	g.yields++
	if p.explore <= 0 || len(p.runq) == 0 {
		return
	}
	k := p.choose(1+len(p.runq), "preempt")
	if k == 0 {
		return
	}
	p.explore--
	n := p.runq[k-1]
	p.runq = append(append([]*G{}, p.runq[:k-1]...), p.runq[k:]...)
	p.recordSwitch(g, yn)
	g.ready = true
	p.runq = append(p.runq, g)
	n.ready = false
	p.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if p.killed {
		runtime.Goexit()
	}
}

func (p *Path) recordSwitch(g *G, yn int) {
	if t, ok := p.parG[g]; ok {
		p.sched = append(p.sched, SchedSeg{T: t, Stop: yn})
	}
}

// ---------------------------------------------------------------- outcome

func (p *Path) modelNow() *Model {
	if p.ensureModel() {
		return p.model
	}
	return nil
}

// caseOf turns a model into concrete inputs.
func (p *Path) caseOf(m *Model) (map[string]uint64, map[string]map[string]uint64) {
	vars := map[string]uint64{}
	bs := map[string]map[string]uint64{}
	memo := map[*Term]uint64{}
	for _, in := range p.inputs {
		if in.src != "" {
			mm := map[string]uint64{}
			for k, v := range m.sels[in.src] {
				mm[fmt.Sprint(k)] = v
			}
			bs[in.name] = mm
		} else {
			vars[in.name] = m.eval(in.t, memo)
		}
	}
	return vars, bs
}

func (p *Path) addViolation(kind, label string, m *Model) {
	if m == nil {
		return
	}
	v := &Violation{Label: label, Kind: kind}
	v.Vars, v.Bytes = p.caseOf(m)
	v.Sched = append([]SchedSeg{}, p.sched...)
	p.viols = append(p.viols, v)
}

func (p *Path) crash(tp *targetPanic) {
	msg := p.panicText(tp)
	p.outcome = Outcome{"violation", "uncaught panic: " + msg + tp.where}
	r, m := p.sol.check(nil, true)
	if r == Sat {
		p.addViolation("panic", "crash: "+msg, m)
	} else if r == Unsat {
		p.outcome = Outcome{"assume", "infeasible"}
	}
}

func (p *Path) hang() {
	var ws []string
	for _, g := range p.gs {
		if !g.done {
			w := ""
			if g.fr != nil {
				w = p.whereStack(g.fr, 3)
			}
			ws = append(ws, fmt.Sprintf("g%d %s:%s", g.id, g.why, w))
		}
	}
	p.outcome = Outcome{"violation", "all goroutines blocked: " + strings.Join(ws, " | ")}
	r, m := p.sol.check(nil, true)
	if r == Sat {
		p.addViolation("hang", "hang: the harness never finishes", m)
	} else if r == Unsat {
		p.outcome = Outcome{"assume", "infeasible"}
	}
}
