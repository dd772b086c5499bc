package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HCfg struct {
	maxConc     int
	maxTimers   int
	fifoTimers  bool
	insertOrder bool
}

// Sample is a completed path to be run natively.
type Sample struct {
	h        *Harness
	Vars     map[string]uint64
	Bytes    map[string]map[string]uint64
	Obs      []string
	Nondet   bool
	NoBubble bool
}

type Harness struct {
	name     string
	fn       *ssa.Function
	stack    []Item
	inflight int
	spent    time.Duration
	closed   bool // no more exploration

	paths    map[string]int
	details  map[string]int
	decs     int
	steps    int
	asserts  int
	disch    int
	triv     int
	reached  map[string]bool
	wanted   []string
	notes    map[string]bool
	obsN     int
	samples  []*Sample
	doneN    int
	maxSt    int
	noBubble bool
	viol     int
	cands    map[string]int
}

type Explorer struct {
	mu    sync.Mutex
	cond  *sync.Cond
	prog  *Prog
	hs    []*Harness
	tier  int
	sizes types.Sizes

	rtErrType, plainErrType, errStrType, wrapErrType, rtypeType types.Type
	perPath                                                    map[string]bool
	perPathOrder                                               []string

	deadline time.Time
	stopAll  bool
	unknown  int
	busy     int
	cur      map[int]*Harness

	onViolation func(h *Harness, p *Path, v *Violation)
	nsample     int
	verbose     bool
	solverBin   []string
	tmo         int

	stats    SolverStats
	funcs    map[string]bool
	closures sync.Map
	methods  sync.Map
	impls    sync.Map
}

type mkey struct {
	t    types.Type
	name string
}
type ikey struct {
	t types.Type
	i *types.Interface
}

func newExplorer(pr *Prog) *Explorer {
	ex := &Explorer{prog: pr, cur: map[int]*Harness{}, funcs: map[string]bool{}, nsample: 40}
	ex.cond = sync.NewCond(&ex.mu)
	ex.sizes = types.SizesFor("gc", "amd64")
	tn := func(pkg, name string) types.Type {
		p := pr.pkgs[pkg]
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	ex.rtErrType = tn("runtime", "errorString")
	ex.plainErrType = tn("runtime", "plainError")
	ex.errStrType = tn("errors", "errorString")
	ex.wrapErrType = tn("fmt", "wrapError")
	if t := tn("reflect", "rtype"); t != nil {
		ex.rtypeType = types.NewPointer(t)
	}
	ex.perPath = map[string]bool{modPath: true, modPath + "/zzvrt": true, modPath + "/zzvh": true}
	ex.perPathOrder = []string{modPath + "/zzvrt", modPath, modPath + "/zzvh"}
	return ex
}

func (ex *Explorer) closureOf(fn *ssa.Function) *Closure {
	if c, ok := ex.closures.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := ex.closures.LoadOrStore(fn, &Closure{fn: fn})
	return c.(*Closure)
}

func (ex *Explorer) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := ex.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	ms := ex.prog.prog.MethodSets.MethodSet(t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() != name {
			continue
		}
		if pkg != nil && !s.Obj().Exported() && s.Obj().Pkg() != pkg {
			continue
		}
		fn = ex.prog.prog.MethodValue(s)
		break
	}
	ex.methods.Store(k, fn)
	return fn
}

func (ex *Explorer) implements(t types.Type, i *types.Interface) bool {
	if i.NumMethods() == 0 {
		return true
	}
	k := ikey{t, i}
	if b, ok := ex.impls.Load(k); ok {
		return b.(bool)
	}
	b := types.Implements(t, i)
	ex.impls.Store(k, b)
	return b
}

func (ex *Explorer) noteUnknown(p *Path, t *Term) {
	ex.mu.Lock()
	ex.unknown++
	ex.mu.Unlock()
	p.incomplete = "solver gave no answer"
}

func (ex *Explorer) push(it Item) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	h := it.h
	if h.closed {
		return
	}
	h.stack = append(h.stack, it)
	ex.cond.Signal()
}

// next hands out work: the harness that has used the least time so far.
func (ex *Explorer) next(wid int) (*Harness, Item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopAll || time.Now().After(ex.deadline) {
			ex.stopAll = true
			ex.cond.Broadcast()
			return nil, Item{}, false
		}
		var best *Harness
		any := false
		for _, h := range ex.hs {
			if h.inflight > 0 {
				any = true
			}
			if len(h.stack) == 0 || h.closed {
				continue
			}
			if best == nil || h.spent < best.spent {
				best = h
			}
		}
		if best != nil {
			var it Item
			if wid%2 == 0 {
				it = best.stack[len(best.stack)-1]
				best.stack = best.stack[:len(best.stack)-1]
			} else {
				it = best.stack[0]
				best.stack = best.stack[1:]
			}
			best.inflight++
			return best, it, true
		}
		if !any {
			ex.cond.Broadcast()
			return nil, Item{}, false
		}
		ex.cond.Wait()
	}
}

// boundMemory gives up half of the pending branches of the harness with most of them when memory runs short (recorded: the check is then not exhaustive).
func (ex *Explorer) boundMemory() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc < 16<<30 {
		return
	}
	var big *Harness
	for _, h := range ex.hs {
		if big == nil || len(h.stack) > len(big.stack) {
			big = h
		}
	}
	if big == nil || len(big.stack) < 1000 {
		return
	}
	n := len(big.stack) / 2
	big.stack = append([]Item(nil), big.stack[n:]...)
	big.details["memory ran short, branches given up"] += n
	go runtime.GC()
}

func (ex *Explorer) run(nw int) {
	var wg sync.WaitGroup
	go func() {
		n := 0
		for {
			time.Sleep(200 * time.Millisecond)
			ex.mu.Lock()
			st := ex.stopAll
			if time.Now().After(ex.deadline) {
				ex.stopAll = true
				st = true
			}
			ex.cond.Broadcast()
			if n++; n%5 == 0 {
				ex.boundMemory()
			}
			ex.mu.Unlock()
			if st {
				return
			}
		}
	}()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{id: i, ex: ex, tc: NewTC(), baseGlob: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, consts: map[*ssa.Const]Value{}, funcSeen: map[*ssa.Function]bool{}}
			w.sol = NewSolver(ex.solverBin, ex.tmo)
			defer func() {
				w.sol.stop()
				ex.mu.Lock()
				s := w.sol.stats
				ex.stats.Queries += s.Queries
				ex.stats.Sat += s.Sat
				ex.stats.Unsat += s.Unsat
				ex.stats.Unknown += s.Unknown
				ex.stats.Time += s.Time
				ex.stats.Errors = append(ex.stats.Errors, s.Errors...)
				for f := range w.funcSeen {
					if infoOf(f).inRepo {
						ex.funcs[f.RelString(nil)] = true
					}
				}
				ex.mu.Unlock()
			}()
			n := 0
			for {
				h, it, ok := ex.next(i)
				if !ok {
					return
				}
				t0 := time.Now()
				p := w.runPath(h, it)
				ex.finish(h, p, time.Since(t0))
				n++
				if len(w.tc.tab) > 3000000 {
					// start afresh to bound memory
					w.tc = NewTC()
					w.baseGlob = map[*ssa.Global]*Value{}
					w.inited = map[*ssa.Package]int{}
					w.consts = map[*ssa.Const]Value{}
					w.sol.stop()
					w.sol.start()
				}
			}
		}(i)
	}
	wg.Wait()
	ex.mu.Lock()
	ex.stopAll = true
	ex.mu.Unlock()
}

func (w *Worker) runPath(h *Harness, it Item) *Path {
	ex := w.ex
	cfg := &HCfg{maxConc: 300, maxTimers: 64}
	p := &Path{
		w: w, tc: w.tc, sol: w.sol, ex: ex, cfg: cfg, item: it, h: h,
		prefix: it.prefix(), model: it.model,
		globals: map[*ssa.Global]*Value{}, side: map[interface{}]interface{}{},
		doneCh: make(chan Outcome, 1), parG: map[*G]int{}, cnt: map[string]int{},
		maxSteps: 3000000,
	}
	p.now = w.tc.Int(1_700_000_000_000_000_000)
	w.sol.begin()
	g := p.newG(func() {
		p.runInits()
		p.callFn(nil, h.fn, nil, nil)
	}, "main")
	g.mainG = true
	p.cur = g
	g.wake <- struct{}{}
	p.outcome = <-p.doneCh
	// observations under a model, before the solver scope is closed
	if p.outcome.kind == "done" {
		ex.mu.Lock()
		h.doneN++
		n := h.doneN
		ex.mu.Unlock()
		take := -1
		if n <= ex.nsample {
			take = n - 1
		} else {
			f := fnv.New32a()
			fmt.Fprintf(f, "%s/%d", h.name, n)
			r := int(f.Sum32() % uint32(n))
			if r < ex.nsample {
				take = r
			}
		}
		if take >= 0 && p.ensureModelQuiet() {
			s := &Sample{h: h, Nondet: p.nondet, NoBubble: p.noBubble}
			s.Vars, s.Bytes = p.caseOf(p.model)
			s.Obs, _ = p.obsText(p.model)
			ex.mu.Lock()
			for len(h.samples) <= take {
				h.samples = append(h.samples, nil)
			}
			h.samples[take] = s
			ex.mu.Unlock()
		}
	}
	p.killed = true
	for _, g := range p.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	p.wg.Wait()
	w.sol.end()
	return p
}

func (p *Path) ensureModelQuiet() bool {
	if p.model != nil {
		return true
	}
	r, m := p.sol.check(nil, true)
	if r != Sat {
		return false
	}
	p.setModel(m)
	return true
}

func (ex *Explorer) finish(h *Harness, p *Path, d time.Duration) {
	ex.mu.Lock()
	h.inflight--
	h.spent += d
	h.paths[p.outcome.kind]++
	h.decs += len(p.dec)
	h.steps += p.steps
	h.asserts += p.asserts
	h.disch += p.discharged
	h.triv += p.triv
	if p.steps > h.maxSt {
		h.maxSt = p.steps
	}
	if p.noBubble {
		h.noBubble = true
	}
	switch p.outcome.kind {
	case "done", "assume":
	default:
		d := p.outcome.kind + ": " + p.outcome.detail
		h.details[d]++
	}
	if p.outcome.kind == "done" {
		for _, r := range p.reached {
			h.reached[r] = true
		}
		h.obsN += len(p.obs)
	}
	for _, n := range p.notes {
		h.notes[n] = true
	}
	if p.incomplete != "" {
		h.notes["incomplete: "+p.incomplete] = true
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
	for _, v := range p.viols {
		ex.onViolation(h, p, v)
	}
}

func (ex *Explorer) closeHarness(h *Harness) {
	ex.mu.Lock()
	h.closed = true
	h.stack = nil
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

// wantedLabels: the Reach labels a harness (and the helpers it calls) mentions.
func wantedLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	lab := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !strings.HasSuffix(pkgOf(f), "/zzvh") {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common().StaticCallee()
				if c == nil {
					continue
				}
				if c.String() == rtPath+"Reach" {
					if k, ok := ci.Common().Args[0].(*ssa.Const); ok {
						lab[strings.Trim(k.Value.ExactString(), "\"")] = true
					}
				}
				visit(c)
			}
		}
	}
	visit(fn)
	var out []string
	for l := range lab {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

func (ex *Explorer) addHarness(name string, fn *ssa.Function) *Harness {
	h := &Harness{name: name, fn: fn, paths: map[string]int{}, details: map[string]int{}, reached: map[string]bool{}, notes: map[string]bool{}, cands: map[string]int{}}
	h.wanted = wantedLabels(fn)
	h.stack = []Item{{h: h, model: &Model{}}}
	h.stack[0].model = nil
	ex.hs = append(ex.hs, h)
	return h
}

var _ = os.Stderr
var _ = runtime.NumCPU
