package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type NCase struct {
	Harness  string                       `json:"harness"`
	Vars     map[string]uint64            `json:"vars"`
	Bytes    map[string]map[string]uint64 `json:"bytes"`
	Sched    []SchedSeg                   `json:"sched"`
	Stress   int                          `json:"stress"`
	Tier     int                          `json:"tier"`
	NoBubble bool                         `json:"nobubble"`
	// for the reader
	Property string `json:"property,omitempty"`
	Label    string `json:"label,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Outcome  string `json:"outcome,omitempty"`
}
type NResult struct {
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
	Assume  string   `json:"assume"`
	// filled in by the runner
	Crash string `json:"-"`
	Hang  bool   `json:"-"`
	Race  string `json:"-"`
	Done  bool   `json:"-"`
}

func (r *NResult) bad() string {
	switch {
	case r.Assume != "":
		return ""
	case r.Crash != "":
		return "crash: " + r.Crash
	case r.Hang:
		return "hang"
	case r.Race != "":
		return "race: " + r.Race
	case len(r.Fails) > 0:
		return "failed: " + strings.Join(r.Fails, "; ")
	}
	return ""
}

// Replayer compiles the harnesses with the real code and runs cases natively.
type Replayer struct {
	w     *Work
	mu    sync.Mutex
	once  [2]sync.Once
	bin   [2]string
	err   [2]error
	n     int
	sem   chan struct{}
	runs  int
	wallN time.Duration
}

func newReplayer(w *Work) *Replayer { return &Replayer{w: w, sem: make(chan struct{}, 8)} }

func (r *Replayer) build(race bool) (string, error) {
	i := 0
	if race {
		i = 1
	}
	r.once[i].Do(func() {
		out := filepath.Join(r.w.dir, fmt.Sprintf("replay%d.test", i))
		args := []string{"test", "-c", "-vet=off", "-overlay=" + filepath.Join(r.w.dir, "overlay.json"), "-o", out}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./zzvh")
		c := exec.Command("go", args...)
		c.Dir = r.w.repo
		c.Env = r.w.env
		b, err := c.CombinedOutput()
		if err != nil {
			r.err[i] = fmt.Errorf("building the replay binary: %v\n%s", err, b)
			return
		}
		r.bin[i] = out
	})
	return r.bin[i], r.err[i]
}

func (r *Replayer) run(c *NCase, race bool, tmo time.Duration) (*NResult, error) {
	bin, err := r.build(race)
	if err != nil {
		return nil, err
	}
	r.sem <- struct{}{}
	defer func() { <-r.sem }()
	r.mu.Lock()
	r.n++
	k := r.n
	r.runs++
	r.mu.Unlock()
	cf := filepath.Join(r.w.dir, fmt.Sprintf("case%d.json", k))
	rf := filepath.Join(r.w.dir, fmt.Sprintf("res%d.json", k))
	defer os.Remove(cf)
	defer os.Remove(rf)
	b, _ := json.Marshal(c)
	os.WriteFile(cf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestCase$", "-test.timeout=600s")
	cmd.Dir = r.w.dir
	cmd.Env = append(os.Environ(), "VCASE="+cf, "VRESULT="+rf, "GORACE=halt_on_error=0", "GOTRACEBACK=all")
	var ob limBuf
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	rerr := cmd.Run()
	res := &NResult{}
	if rb, e := os.ReadFile(rf); e == nil && json.Unmarshal(rb, res) == nil {
		res.Done = true
	}
	out := string(ob.b)
	res.Race = repoRace(out)
	if ctx.Err() != nil {
		if !res.Done {
			res.Hang = true
		}
		return res, nil
	}
	if !res.Done && rerr != nil {
		if i := strings.Index(out, "deadlock: main bubble goroutine has exited"); i >= 0 {
			// cannot happen: the runner exits itself
		}
		if strings.Contains(out, "all goroutines in bubble are blocked") || strings.Contains(out, "all goroutines are asleep") {
			res.Hang = true
			return res, nil
		}
		i := strings.Index(out, "panic: ")
		if j := strings.Index(out, "fatal error: "); j >= 0 && (i < 0 || j < i) {
			i = j
		}
		if i >= 0 {
			res.Crash = cutStr(out[i:], 600)
			return res, nil
		}
		return res, fmt.Errorf("replay process failed: %v: %s", rerr, cutStr(out, 800))
	}
	return res, nil
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type limBuf struct{ b []byte }

func (l *limBuf) Write(p []byte) (int, error) {
	if len(l.b) < 1<<17 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

// confirm replays a candidate; it returns the native outcome if it fails too.
func (r *Replayer) confirm(c *NCase, kind string) (string, *NCase, error) {
	race := kind == "race"
	tries := 24
	for i := 0; i < tries; i++ {
		cc := *c
		if i > 0 {
			cc.Stress = i
		}
		if race {
			cc.Sched = nil
			cc.NoBubble = true
		} else if i >= 12 && len(c.Sched) > 0 {
			cc.Stress = 0
		}
		res, err := r.run(&cc, race, 20*time.Second)
		if err != nil {
			return "", nil, err
		}
		if res.Hang && kind != "hang" {
			// might just be slow: ask again with more time
			res, err = r.run(&cc, race, 60*time.Second)
			if err != nil {
				return "", nil, err
			}
		}
		if b := res.bad(); b != "" {
			return b, &cc, nil
		}
		if res.Assume != "" && i == 0 && kind != "race" {
			return "", nil, nil
		}
	}
	return "", nil, nil
}

// repoRace: the first race report of the detector both of whose accesses are
// made by the code under test (not by the harness or its environment).
func repoRace(out string) string {
	for _, b := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(b, "=================="); i >= 0 {
			b = b[:i]
		}
		ours := 0
		for _, st := range strings.Split(b, "\n\n") {
			st = strings.TrimSpace(st)
			l := strings.ToLower(strings.SplitN(st, "\n", 2)[0])
			if !strings.Contains(l, "read at") && !strings.Contains(l, "write at") && !strings.Contains(l, "previous ") {
				continue
			}
			for _, f := range strings.Split(st, "\n") {
				f = strings.TrimSpace(f)
				if !strings.HasPrefix(f, modPath) {
					continue
				}
				if !strings.HasPrefix(f, modPath+"/zzvh") && !strings.HasPrefix(f, modPath+"/zzvrt") {
					ours++
				}
				break
			}
		}
		if ours >= 2 {
			return cutStr("WARNING: DATA RACE"+b, 1500)
		}
	}
	return ""
}
