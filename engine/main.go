package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type known struct{ prop, harness, label string }

func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> harness=<name> label=<text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		for _, f := range strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "harness="):
				k.harness = f[8:]
			case strings.HasPrefix(f, "label="):
				k.label = f[6:]
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replayMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "only this harness")
	budget := fs.Int("budget", 0, "seconds of exploration")
	verbose := fs.Bool("v", false, "")
	noval := fs.Bool("noval", false, "skip native validation")
	nw := fs.Int("w", 8, "workers")
	fs.Parse(os.Args[1:])
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	runtime.GOMAXPROCS(8)
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "tcpxsym")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-ch
		os.RemoveAll(scratch)
		os.Exit(3)
	}()
	code := check(*id, *tier, *repo, *verif, scratch, *only, *budget, *verbose, *noval, *nw, t0)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "check error:", err)
	os.Exit(2)
}

var harnessRe = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

// genRegistry writes the native table of harness functions.
func genRegistry(w *Work, verif string) ([]string, error) {
	hd := filepath.Join(verif, "harness", "zzvh")
	ents, err := os.ReadDir(hd)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(hd, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package zzvh\n\nvar Registry = map[string]func(){\n")
	for _, n := range names {
		sb.WriteString(fmt.Sprintf("\t%q: %s,\n", n, n))
	}
	sb.WriteString("}\n")
	f := filepath.Join(w.dir, "zz_reg_test.go")
	if err := os.WriteFile(f, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	w.overlay[filepath.Join(w.repo, "zzvh", "zz_reg_test.go")] = f
	return names, w.writeOverlay()
}

func (w *Work) writeOverlay() error {
	ov, _ := json.Marshal(map[string]interface{}{"Replace": w.overlay})
	return os.WriteFile(filepath.Join(w.dir, "overlay.json"), ov, 0o644)
}

type cand struct {
	h *Harness
	v *Violation
	nb bool
}

func check(id, tier, repo, verif, scratch, only string, budget int, verbose, noval bool, nw int, t0 time.Time) int {
	w, err := prepareWork(repo, verif, scratch)
	if err != nil {
		fatal(err)
	}
	names, err := genRegistry(w, verif)
	if err != nil {
		fatal(err)
	}
	rp := newReplayer(w)
	buildDone := make(chan error, 1)
	go func() {
		_, e := rp.build(false)
		buildDone <- e
	}()
	pr, err := loadProgram(w)
	if err != nil {
		os.RemoveAll(scratch)
		fatal(err)
	}
	pr.prog.Build()
	tLoad := time.Since(t0)
	ex := newExplorer(pr)
	ex.verbose = verbose
	ex.solverBin = []string{"z3-new", "-in"}
	ex.tmo = 8000
	if tier == "thorough" {
		ex.tier = 1
		ex.tmo = 30000
		ex.nsample = 120
	}
	zz := pr.pkgs[modPath+"/zzvh"]
	for _, n := range names {
		if only != "" && n != only || only == "" && !strings.HasPrefix(n, id+"_") {
			continue
		}
		fn := zz.Func(n)
		if fn == nil {
			fatal(fmt.Errorf("no harness %s", n))
		}
		ex.addHarness(n, fn)
	}
	if len(ex.hs) == 0 {
		fatal(fmt.Errorf("no harness for %s", id))
	}
	if budget == 0 {
		budget = 150
		if tier == "thorough" {
			budget = 1500
		}
	}
	ex.deadline = time.Now().Add(time.Duration(budget) * time.Second)

	kn := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	isKnown := func(h, label string) bool {
		for _, k := range kn {
			if k.prop == id && k.harness == h && k.label == label {
				return true
			}
		}
		return false
	}

	var mu sync.Mutex
	queue := make(chan cand, 100000)
	var confirmed []*NCase
	var spurious []string
	var knownHit = map[string]bool{}
	var infra []string
	tried := map[string]int{}
	ex.onViolation = func(h *Harness, p *Path, v *Violation) {
		mu.Lock()
		key := h.name + "\x00" + v.Label
		tried[key]++
		n := tried[key]
		h.viol++
		mu.Unlock()
		if verbose && n <= 3 {
			fmt.Fprintf(os.Stderr, "candidate %s: %s %s\n  vars=%v bytes=%v sched=%v\n  outcome %v\n", h.name, v.Kind, v.Label, v.Vars, v.Bytes, v.Sched, p.outcome)
		}
		if n <= 6 {
			select {
			case queue <- cand{h, v, p.noBubble}:
			default:
			}
		}
	}
	var cwg sync.WaitGroup
	settled := map[string]bool{}
	for i := 0; i < 3; i++ {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			for c := range queue {
				key := c.h.name + "\x00" + c.v.Label
				mu.Lock()
				if settled[key] || len(confirmed) > 0 && !verbose {
					mu.Unlock()
					continue
				}
				mu.Unlock()
				nc := &NCase{Harness: c.h.name, Vars: c.v.Vars, Bytes: c.v.Bytes, Sched: c.v.Sched, Tier: ex.tier, NoBubble: c.nb, Property: id, Label: c.v.Label, Kind: c.v.Kind}
				out, used, err := rp.confirm(nc, c.v.Kind)
				mu.Lock()
				switch {
				case err != nil:
					infra = append(infra, err.Error())
				case out == "":
					spurious = append(spurious, c.h.name+": "+c.v.Kind+" "+c.v.Label)
				case isKnown(c.h.name, c.v.Label):
					knownHit[c.h.name+": "+c.v.Label] = true
					settled[key] = true
				default:
					used.Outcome = out
					confirmed = append(confirmed, used)
					settled[key] = true
				}
				stop := len(confirmed) > 0
				mu.Unlock()
				if stop {
					ex.mu.Lock()
					// look around a little longer, then stop
					if d := time.Now().Add(2 * time.Second); d.Before(ex.deadline) {
						ex.deadline = d
					}
					ex.mu.Unlock()
				}
			}
		}()
	}
	ex.run(nw)
	close(queue)
	cwg.Wait()
	tExp := time.Since(t0)
	if e := <-buildDone; e != nil {
		infra = append(infra, e.Error())
	}

	// trace validation
	validated, mismatch, natFail := 0, []string{}, 0
	var samplesOut []interface{}
	if !noval && len(confirmed) == 0 {
		var vwg sync.WaitGroup
		var todo []*Sample
		for _, h := range ex.hs {
			for _, s := range h.samples {
				if s != nil {
					todo = append(todo, s)
				}
			}
		}
		lim := 240
		if ex.tier == 1 {
			lim = 1500
		}
		if len(todo) > lim {
			var t2 []*Sample
			for i := 0; i < lim; i++ {
				t2 = append(t2, todo[i*len(todo)/lim])
			}
			todo = t2
		}
		sem := make(chan struct{}, 8)
		for _, s := range todo {
			vwg.Add(1)
			go func(s *Sample) {
				defer vwg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				nc := &NCase{Harness: s.h.name, Vars: s.Vars, Bytes: s.Bytes, Tier: ex.tier, NoBubble: s.NoBubble, Property: id}
				res, err := rp.run(nc, false, 20*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					infra = append(infra, err.Error())
					return
				}
				if b := res.bad(); b != "" {
					// must fail again to count
					again := 0
					mu.Unlock()
					for k := 0; k < 3; k++ {
						r2, e2 := rp.run(nc, false, 60*time.Second)
						if e2 == nil && r2.bad() != "" {
							again++
						}
					}
					mu.Lock()
					if again >= 2 {
						l := ""
						if len(res.Fails) > 0 {
							l = res.Fails[0]
						}
						if isKnown(s.h.name, l) {
							knownHit[s.h.name+": "+l] = true
							return
						}
						nc.Outcome = b
						nc.Label = "native run: " + b
						confirmed = append(confirmed, nc)
						natFail++
					} else {
						mismatch = append(mismatch, s.h.name+": native run failed once: "+b)
					}
					return
				}
				if s.Nondet {
					validated++
					return
				}
				if res.Assume != "" {
					mismatch = append(mismatch, s.h.name+": assumption fails natively: "+res.Assume)
					return
				}
				if !sameObs(s.Obs, res.Obs) {
					mismatch = append(mismatch, fmt.Sprintf("%s: observations differ: engine %v native %v vars %v", s.h.name, s.Obs, res.Obs, s.Vars))
					return
				}
				validated++
			}(s)
		}
		vwg.Wait()
		for _, h := range ex.hs {
			for _, s := range h.samples {
				if s != nil && len(samplesOut) < 12 {
					samplesOut = append(samplesOut, map[string]interface{}{"harness": h.name, "inputs": s.Vars, "observations": s.Obs})
					break
				}
			}
		}
	}

	// ---- evidence
	wall := time.Since(t0).Seconds()
	states, trans := 0, 0
	var hrep []interface{}
	var incomplete []string
	assum := map[string]bool{}
	exhaustive := true
	asserts, disch, triv := 0, 0, 0
	for _, h := range ex.hs {
		np := 0
		for _, n := range h.paths {
			np += n
		}
		states += np
		trans += h.decs
		asserts += h.asserts
		disch += h.disch
		triv += h.triv
		pend := len(h.stack)
		if pend > 0 {
			exhaustive = false
			incomplete = append(incomplete, fmt.Sprintf("%s: %d pending branches when the time budget ended", h.name, pend))
		}
		for d, n := range h.details {
			if !strings.HasPrefix(d, "violation") {
				exhaustive = false
				incomplete = append(incomplete, fmt.Sprintf("%s: %d paths cut: %s", h.name, n, cutStr(d, 400)))
			}
		}
		var miss []string
		for _, l := range h.wanted {
			if !h.reached[l] {
				miss = append(miss, l)
			}
		}
		for n := range h.notes {
			assum[h.name+": "+n] = true
		}
		hrep = append(hrep, map[string]interface{}{"harness": h.name, "paths": h.paths, "decisions": h.decs, "steps": h.steps, "assertions_evaluated": h.asserts, "unreached_witnesses": miss, "cpu_s": h.spent.Seconds(), "longest_path_steps": h.maxSt})
	}
	sort.Strings(incomplete)
	var fnl []string
	for f := range ex.funcs {
		fnl = append(fnl, strings.ReplaceAll(f, modPath, "tcpx"))
	}
	sort.Strings(fnl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated,
		"samples": samplesOut, "exhaustive": exhaustive,
		"functions_encoded": fnl, "queries": ex.stats.Queries, "queries_sat": ex.stats.Sat, "queries_unsat": ex.stats.Unsat, "queries_unknown": ex.stats.Unknown,
		"solver_s": ex.stats.Time.Seconds(), "solver": strings.Join(ex.solverBin, " "), "assertions_evaluated": asserts, "assertions_discharged_by_solver": disch, "assertions_folded_to_true": triv,
		"harnesses": hrep, "outside_or_reduced": incomplete, "trace_mismatches": mismatch, "candidates_not_reproduced": spurious, "native_runs": rp.runs,
		"load_s": tLoad.Seconds(), "explore_s": (tExp - tLoad).Seconds(), "infrastructure_errors": infra,
		"what_states_are": "states = execution paths of the harness with symbolic inputs, each standing for all inputs satisfying its path condition; transitions = decisions taken on them",
		"bounds": boundsOf(verif, ex.hs, ex.tier),
	}
	if len(ex.stats.Errors) > 0 {
		cov["solver_errors"] = ex.stats.Errors
	}
	var asl []string
	for a := range assum {
		asl = append(asl, a)
	}
	sort.Strings(asl)
	asl = append(asl, "network, TLS, signals and process exit are the stand-ins of harness/zzvrt; the clock is virtual", "encoding/json is modelled on the wire level, xml/yaml/toml/protobuf by their round-trip contract", "maps iterate in any order up to 3 entries, beyond that in insertion and reverse order")
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": asl, "wall_s": wall, "violations": len(confirmed)}
	if only == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644); err != nil {
			fatal(err)
		}
	}
	if verbose {
		for _, h := range hrep {
			b, _ := json.Marshal(h)
			fmt.Println(string(b))
		}
		for _, s := range incomplete {
			fmt.Println("reduced:", s)
		}
		for _, s := range mismatch {
			fmt.Println("MISMATCH:", s)
		}
		for _, s := range spurious {
			fmt.Println("spurious:", s)
		}
		for _, s := range infra {
			fmt.Println("infra:", s)
		}
		for _, s := range asl {
			fmt.Println("note:", s)
		}
		fmt.Println("solver errors:", ex.stats.Errors)
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), %d native traces agree, %d mismatches, exhaustive=%v, %.1fs\n", id, tier, states, trans, asserts, ex.stats.Queries, ex.stats.Time.Seconds(), validated, len(mismatch), exhaustive, wall)
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(confirmed) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		for i, c := range confirmed {
			if i >= 5 {
				break
			}
			f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("  %s: %s\n  native outcome: %s\n", c.Harness, c.Label, strings.SplitN(c.Outcome, "\n", 2)[0])
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		}
		return 1
	}
	// nothing could be checked at all: an error of the check
	ok := false
	for _, h := range ex.hs {
		if h.paths["done"] > 0 {
			ok = true
		}
	}
	if !ok || len(infra) > 0 && rp.bin[0] == "" {
		fmt.Fprintln(os.Stderr, "check error: no path could be completed", infra)
		for _, s := range incomplete {
			fmt.Fprintln(os.Stderr, s)
		}
		return 2
	}
	return 0
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.HasSuffix(a[i], "=?") {
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// boundsOf collects the "bound:" comments of the harness functions.
func boundsOf(verif string, hs []*Harness, tier int) map[string]string {
	out := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(verif, "harness", "zzvh", "*.go"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			m := harnessRe.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			var doc []string
			for j := i - 1; j >= 0 && strings.HasPrefix(lines[j], "//"); j-- {
				doc = append([]string{strings.TrimSpace(strings.TrimPrefix(lines[j], "//"))}, doc...)
			}
			for _, h := range hs {
				if h.name == m[1] {
					out[h.name] = strings.Join(doc, " ")
				}
			}
		}
	}
	return out
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal(err)
	}
	var c NCase
	if err := json.Unmarshal(b, &c); err != nil {
		fatal(err)
	}
	scratch, err := os.MkdirTemp("", "tcpxsym")
	if err != nil {
		fatal(err)
	}
	w, err := prepareWork(*repo, *verif, scratch)
	if err == nil {
		_, err = genRegistry(w, *verif)
	}
	if err != nil {
		os.RemoveAll(scratch)
		fatal(err)
	}
	rp := newReplayer(w)
	out, _, err := rp.confirm(&c, c.Kind)
	os.RemoveAll(scratch)
	if err != nil {
		fatal(err)
	}
	fmt.Println("case:", c.Harness, c.Label)
	if out == "" {
		fmt.Println("does not fail")
		return
	}
	fmt.Println("fails:", out)
	os.Exit(1)
}

var _ *ssa.Function
