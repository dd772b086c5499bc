package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// raceState is a happens-before data race detector over the interpreted heap.
type raceState struct {
	vals map[*Value]*acc
	objs map[interface{}]*acc
	atom map[*Value][]int32
	seen map[string]bool
}
type acc struct {
	wG    int
	wC    int32
	wFn   string
	reads map[int]racc
}
type racc struct {
	c  int32
	fn string
}

func newRace(p *Path) *raceState {
	r := &raceState{vals: map[*Value]*acc{}, objs: map[interface{}]*acc{}, atom: map[*Value][]int32{}, seen: map[string]bool{}}
	for _, g := range p.gs {
		r.tick(g)
	}
	return r
}

func at(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func grow(v []int32, n int) []int32 {
	for len(v) < n {
		v = append(v, 0)
	}
	return v
}
func joinVC(dst, src []int32) []int32 {
	dst = grow(dst, len(src))
	for i, x := range src {
		if x > dst[i] {
			dst[i] = x
		}
	}
	return dst
}
func (r *raceState) tick(g *G) {
	g.vc = grow(g.vc, g.id+1)
	g.vc[g.id]++
}
func (r *raceState) fork(parent, child *G) {
	child.vc = append([]int32{}, parent.vc...)
	r.tick(child)
	r.tick(parent)
}
func (r *raceState) acquire(g *G, vc []int32) { g.vc = joinVC(g.vc, vc) }
func (r *raceState) release(g *G, vc *[]int32) {
	*vc = joinVC(append([]int32{}, *vc...), g.vc)
	r.tick(g)
}
func (r *raceState) atomic(p *Path, a *Value) {
	v := r.atom[a]
	r.acquire(p.cur, v)
	r.release(p.cur, &v)
	r.atom[a] = v
}

// repoFn: the function of the code under test on whose behalf the access is
// made; "" when the access belongs to the harness or the environment.
func (p *Path) repoFn() string {
	for f := p.cur.fr; f != nil; f = f.caller {
		if f.info.inRepo {
			fn := f.fn
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			return fn.RelString(nil)
		}
		if pk := pkgOf(f.fn); pk == modPath+"/zzvh" || pk == modPath+"/zzvrt" {
			return ""
		}
	}
	return ""
}
func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

func (r *raceState) access(p *Path, a *acc, write bool, what string) {
	fn := p.repoFn()
	if fn == "" {
		return
	}
	g := p.cur
	if a.wG >= 0 && a.wG != g.id && at(g.vc, a.wG) < a.wC {
		r.report(p, a.wFn, fn, what)
	}
	if write {
		for k, x := range a.reads {
			if k != g.id && at(g.vc, k) < x.c {
				r.report(p, x.fn, fn, what)
			}
		}
		a.wG, a.wC, a.wFn = g.id, at(g.vc, g.id), fn
		a.reads = nil
	} else {
		if a.reads == nil {
			a.reads = map[int]racc{}
		}
		a.reads[g.id] = racc{at(g.vc, g.id), fn}
	}
}
func (r *raceState) report(p *Path, f1, f2, what string) {
	fs := []string{f1, f2}
	sort.Strings(fs)
	label := fmt.Sprintf("data race on a %s between %s and %s", what, fs[0], fs[1])
	if r.seen[label] {
		return
	}
	r.seen[label] = true
	res, m := p.sol.check(nil, true)
	if res == Sat {
		p.addViolation("race", label, m)
	}
}
func (r *raceState) acc(a *Value) *acc {
	x := r.vals[a]
	if x == nil {
		x = &acc{wG: -1}
		r.vals[a] = x
	}
	return x
}
func (r *raceState) each(a *Value, f func(*Value)) {
	switch s := (*a).(type) {
	case Struct:
		for i := range s {
			r.each(&s[i], f)
		}
		return
	case Array:
		for i := range s {
			r.each(&s[i], f)
		}
		return
	}
	f(a)
}
func (r *raceState) read(p *Path, a *Value) {
	r.each(a, func(x *Value) { r.access(p, r.acc(x), false, "variable") })
}
func (r *raceState) write(p *Path, a *Value) {
	r.each(a, func(x *Value) { r.access(p, r.acc(x), true, "variable") })
}
func (r *raceState) obj(o interface{}) *acc {
	x := r.objs[o]
	if x == nil {
		x = &acc{wG: -1}
		r.objs[o] = x
	}
	return x
}
func (r *raceState) readObj(p *Path, o interface{}, kind string)  { r.access(p, r.obj(o), false, kind) }
func (r *raceState) writeObj(p *Path, o interface{}, kind string) { r.access(p, r.obj(o), true, kind) }
