package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Errors                       []string
}

type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     bytes.Buffer
	defined map[int32]bool
	decls   map[string]bool
	ndef    int
	stats   SolverStats
	// path state
	pc      []*Term
	pcSet   map[*Term]bool
	known   map[*Term]uint64 // variables the path condition fixes to one value
	seen    map[*Term]bool
	vars    []*Term
	sels    []*Term
	open    bool
	tmoMS   int
	dumpLog *bytes.Buffer
}

func NewSolver(bin []string, tmoMS int) *Solver {
	s := &Solver{bin: bin, tmoMS: tmoMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.decls = map[string]bool{}
	s.ndef = 0
	s.buf.Reset()
	s.w("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.tmoMS))
		s.w("(set-option :smt.random_seed 1)\n")
	} else {
		s.w(fmt.Sprintf("(set-option :tlimit-per %d)\n", s.tmoMS))
	}
	s.w("(set-logic QF_UFBV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) w(x string) { s.buf.WriteString(x) }

func (s *Solver) flush() {
	if s.dumpLog != nil {
		s.dumpLog.Write(s.buf.Bytes())
	}
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	if err != nil {
		panic(engineError("solver write: " + err.Error()))
	}
}

func (s *Solver) begin() {
	if s.ndef > 400000 {
		s.stop()
		s.start()
	}
	s.w("(push 1)\n")
	s.pc = s.pc[:0]
	s.pcSet = map[*Term]bool{}
	s.known = map[*Term]uint64{}
	s.seen = map[*Term]bool{}
	s.vars, s.sels = nil, nil
	s.open = true
}
func (s *Solver) end() {
	if s.open {
		s.w("(pop 1)\n")
		s.open = false
	}
}

// define makes sure t is known to the solver, and records its variables.
func (s *Solver) define(t *Term) {
	if t.op == OpConst {
		return
	}
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	for i := 0; i < 3 && t.a[i] != nil; i++ {
		s.define(t.a[i])
	}
	switch t.op {
	case OpVar:
		if nm := t.smtName(); !s.decls[nm] {
			s.decls[nm] = true
			s.w("(declare-const |" + nm + "| " + sortOf(t.w) + ")\n")
		}
		s.vars = append(s.vars, t)
		return
	case OpSel:
		if nm := t.smtName(); !s.decls[nm] {
			s.decls[nm] = true
			s.w("(declare-fun |" + nm + "| ((_ BitVec 64)) (_ BitVec 8))\n")
		}
		s.sels = append(s.sels, t)
	}
	if !s.defined[t.id] {
		s.defined[t.id] = true
		s.ndef++
		s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), t.body()))
	}
}

func (s *Solver) assert(t *Term) {
	if t.IsTrue() || s.pcSet[t] {
		return
	}
	if t.op == OpAnd {
		s.assert(t.a[0])
		s.assert(t.a[1])
		return
	}
	s.pcSet[t] = true
	if t.op == OpEq {
		if x, y := t.a[0], t.a[1]; x.op == OpVar && y.op == OpConst {
			s.known[x] = y.c
		} else if y.op == OpVar && x.op == OpConst {
			s.known[y] = x.c
		}
	}
	s.pc = append(s.pc, t)
	s.define(t)
	s.w("(assert " + t.ref() + ")\n")
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineError("solver died: " + err.Error()))
	}
	return strings.TrimSpace(l)
}

// check: is pc && extra satisfiable?  Model is returned on sat if wanted.
func (s *Solver) check(extra []*Term, wantModel bool) (SatRes, *Model) {
	t0 := time.Now()
	for _, e := range extra {
		if e.IsFalse() {
			return Unsat, nil
		}
		s.define(e)
	}
	if len(extra) > 0 {
		s.w("(push 1)\n")
		for _, e := range extra {
			s.w("(assert " + e.ref() + ")\n")
		}
	}
	s.w("(check-sat)\n")
	s.flush()
	res := Unknown
	l := s.readLine()
	for strings.HasPrefix(l, "(error") {
		s.stats.Errors = append(s.stats.Errors, l)
		l = s.readLine()
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.getModel()
	}
	if len(extra) > 0 {
		s.w("(pop 1)\n")
	}
	s.stats.Queries++
	switch res {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	s.stats.Time += time.Since(t0)
	return res, m
}

func (s *Solver) getModel() *Model {
	m := &Model{vars: map[string]uint64{}, sels: map[string]map[uint64]uint64{}}
	var ts []string
	for _, v := range s.vars {
		ts = append(ts, v.ref())
	}
	for _, v := range s.sels {
		ts = append(ts, v.a[0].ref(), v.ref())
	}
	if len(ts) == 0 {
		return m
	}
	s.w("(get-value (" + strings.Join(ts, " ") + "))\n(echo \"@@\")\n")
	s.flush()
	var sb strings.Builder
	for {
		l := s.readLine()
		if strings.Contains(l, "@@") {
			break
		}
		if strings.HasPrefix(l, "(error") {
			s.stats.Errors = append(s.stats.Errors, l)
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	vals := parseValues(sb.String())
	if len(vals) != len(ts) {
		panic(engineError(fmt.Sprintf("model parse: %d values for %d terms: %.300s", len(vals), len(ts), sb.String())))
	}
	for i, v := range s.vars {
		m.vars[v.name] = vals[i]
	}
	o := len(s.vars)
	for i, v := range s.sels {
		mm := m.sels[v.name]
		if mm == nil {
			mm = map[uint64]uint64{}
			m.sels[v.name] = mm
		}
		mm[vals[o+2*i]] = vals[o+2*i+1]
	}
	return m
}

// parseValues extracts the value of each pair in "((a v) (b v) ...)".
func parseValues(x string) []uint64 {
	var vals []uint64
	depth := 0
	i := 0
	n := len(x)
	for i < n {
		switch c := x[i]; {
		case c == '(':
			depth++
			i++
			if depth == 2 {
				// term
				i = skipSexp(x, i)
				for i < n && x[i] == ' ' {
					i++
				}
				j := skipSexp(x, i)
				vals = append(vals, parseVal(strings.TrimSpace(x[i:j])))
				i = j
			}
		case c == ')':
			depth--
			i++
		default:
			i++
		}
	}
	return vals
}
func skipSexp(x string, i int) int {
	for i < len(x) && x[i] == ' ' {
		i++
	}
	if x[i] == '|' {
		i++
		for x[i] != '|' {
			i++
		}
		return i + 1
	}
	if x[i] != '(' {
		for i < len(x) && x[i] != ' ' && x[i] != ')' && x[i] != '(' {
			i++
		}
		return i
	}
	d := 0
	for i < len(x) {
		switch x[i] {
		case '|':
			i++
			for x[i] != '|' {
				i++
			}
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i + 1
			}
		}
		i++
	}
	return i
}
func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		u, _ := strconv.ParseUint(v[2:], 16, 64)
		return u
	case strings.HasPrefix(v, "#b"):
		u, _ := strconv.ParseUint(v[2:], 2, 64)
		return u
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v)
		u, _ := strconv.ParseUint(f[1][2:], 10, 64)
		return u
	}
	panic(engineError("bad solver value " + v))
}

type engineError string

// decided evaluates a term all of whose variables the path condition fixes to
// one value each (substitution of equals; nothing is left for the solver).
func (s *Solver) decided(t *Term, depth int) (uint64, bool) {
	switch t.op {
	case OpConst:
		return t.c, true
	case OpVar:
		v, ok := s.known[t]
		return v, ok
	case OpSel, OpIte, OpExtract, OpConcat:
		return 0, false
	}
	if depth == 0 {
		return 0, false
	}
	x, ok := s.decided(t.a[0], depth-1)
	if !ok {
		return 0, false
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - x
	case OpBNot:
		r = ^x
	case OpNeg:
		r = -x
	case OpZExt:
		r = x
	case OpSExt:
		r = uint64(sx(x, t.a[0].w))
	default:
		y, ok := s.decided(t.a[1], depth-1)
		if !ok {
			return 0, false
		}
		r, _ = foldBin(t.op, t.a[0].w, x, y)
	}
	return r & mask(t.w), true
}
