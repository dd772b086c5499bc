package zzvrt

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- inputs
// engine: every function of this file except Par is intercepted by the
// symbolic engine; the bodies below are the native replay.

// Case is one concrete assignment of all symbolic inputs of a harness.
type Case struct {
	Harness string                       `json:"harness"`
	Vars    map[string]uint64            `json:"vars"`
	Bytes   map[string]map[string]uint64 `json:"bytes"`
	Sched   []Seg                        `json:"sched"`
	Stress  int                          `json:"stress"`
	Tier    int                          `json:"tier"`
}

// Seg: run thread T until its Stop-th yield (-1: until it ends).
type Seg struct {
	T    int `json:"t"`
	Stop int `json:"stop"`
}

// Result of a native run.
type Result struct {
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
	Assume  string   `json:"assume"`
}

var (
	rtmu    sync.Mutex
	cur     *Case
	cnt     map[string]int
	res     *Result
	IdleFn  func()
	rndSeed uint64
)

type AssumeFailed struct{ What string }

// Begin starts a native case.
func Begin(c *Case) {
	rtmu.Lock()
	cur = c
	cnt = map[string]int{}
	res = &Result{}
	rndSeed = uint64(c.Stress)*7919 + 1
	spins = 0
	rtmu.Unlock()
	resetNet()
}

// End returns what happened.
func End() *Result {
	rtmu.Lock()
	defer rtmu.Unlock()
	return res
}

func uniq(name string) string {
	cnt[name]++
	if cnt[name] == 1 {
		return name
	}
	return name + "#" + strconv.Itoa(cnt[name])
}
func v(name string) uint64 {
	rtmu.Lock()
	defer rtmu.Unlock()
	return cur.Vars[uniq(name)]
}

func Bool(name string) bool  { return v(name)&1 == 1 }
func U8(name string) uint8   { return uint8(v(name)) }
func U16(name string) uint16 { return uint16(v(name)) }
func U32(name string) uint32 { return uint32(v(name)) }
func I32(name string) int32  { return int32(v(name)) }
func I64(name string) int64  { return int64(v(name)) }
func AnyInt(name string) int { return int(v(name)) }
func Int(name string, lo, hi int) int {
	x := int(v(name))
	if x < lo || x > hi {
		panic(AssumeFailed{fmt.Sprintf("%s=%d not in [%d,%d]", name, x, lo, hi)})
	}
	return x
}

// Choose forks n ways; the result is a constant on every path.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Bytes returns n (constant) unconstrained bytes.
func Bytes(name string, n int) []byte {
	rtmu.Lock()
	defer rtmu.Unlock()
	u := uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.Vars[u+"["+strconv.Itoa(i)+"]"])
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Big returns n unconstrained bytes where n may itself be symbolic.
func Big(name string, n int) []byte {
	rtmu.Lock()
	defer rtmu.Unlock()
	u := uniq(name)
	b := make([]byte, n)
	fill := byte(0x30)
	for i := range b {
		b[i] = fill + byte(i%61)
	}
	for k, x := range cur.Bytes[u] {
		i, e := strconv.ParseUint(k, 10, 64)
		if e == nil && i < uint64(n) {
			b[i] = byte(x)
		}
	}
	return b
}

func Assume(ok bool) {
	if !ok {
		_, f, l, _ := runtime.Caller(1)
		panic(AssumeFailed{fmt.Sprintf("%s:%d", f, l)})
	}
}
func Assert(ok bool, label string) {
	if !ok {
		Fail(label)
	}
}
func Fail(label string) {
	rtmu.Lock()
	defer rtmu.Unlock()
	for _, x := range res.Fails {
		if x == label {
			return
		}
	}
	res.Fails = append(res.Fails, label)
}
func AssertBytesEq(a, b []byte, label string) {
	if !bytes.Equal(a, b) {
		Fail(label)
	}
}

// Reach marks a point every harness must reach on some path (vacuity guard).
func Reach(label string) {
	rtmu.Lock()
	defer rtmu.Unlock()
	for _, x := range res.Reached {
		if x == label {
			return
		}
	}
	res.Reached = append(res.Reached, label)
}
func obs(s string) {
	rtmu.Lock()
	defer rtmu.Unlock()
	res.Obs = append(res.Obs, s)
}
func ObsInt(label string, x int)    { obs(label + "=" + strconv.Itoa(x)) }
func ObsStr(label string, x string) { obs(label + "=" + strconv.Quote(x)) }
func ObsBytes(label string, x []byte) {
	if len(x) > 64 {
		obs(label + "=len" + strconv.Itoa(len(x)))
		return
	}
	obs(label + "=" + hex.EncodeToString(x))
}

// Idle waits until every other goroutine is blocked.
func Idle() { IdleFn() }

// IsEngine tells whether the code is being interpreted symbolically.
func IsEngine() bool { return false }

// Tier is 0 for the quick check, 1 for the thorough one.
func Tier() int { return cur.Tier }

// Opt sets an engine option for this harness.
func Opt(name string, v int) {}

// Explore lets the engine deviate from its default schedule up to k times.
func Explore(k int) {}

// Races switches the engine's data-race detector on.
func Races() {}

// Spins is the number of goroutines caught busy-looping on a dead socket.
func Spins() int { return spins }

// Sprint formats natively; the engine returns an opaque string.
func Sprint(a ...interface{}) string { return fmt.Sprint(a...) }

// ---------------------------------------------------------------- threads

type thr struct {
	id    int
	goid  string
	y     int
	stop  int
	run   chan struct{}
	ev    chan int // 0: stopped at yield, 1: done
	armed bool
}

var (
	thmu sync.Mutex
	ths  map[string]*thr
)

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

// Y is inserted before synchronisation operations of the code under test.
func Y(site int) {
	if ths == nil {
		if cur != nil && cur.Stress > 0 {
			rtmu.Lock()
			rndSeed = rndSeed*6364136223846793005 + 1442695040888963407
			k := int(rndSeed>>33) % 8
			rtmu.Unlock()
			for i := 0; i < k; i++ {
				runtime.Gosched()
			}
		}
		return
	}
	id := goid()
	thmu.Lock()
	t := ths[id]
	thmu.Unlock()
	if t == nil {
		return
	}
	if t.y == t.stop {
		t.ev <- 0
		<-t.run
	}
	t.y++
}

// Par runs the functions concurrently, following the schedule of the case.
func Par(fs ...func()) {
	if cur.Stress > 0 || len(cur.Sched) == 0 {
		var wg sync.WaitGroup
		for i := range fs {
			wg.Add(1)
			f := fs[i]
			go func() {
				defer wg.Done()
				f()
			}()
		}
		wg.Wait()
		return
	}
	thmu.Lock()
	ths = map[string]*thr{}
	thmu.Unlock()
	ts := make([]*thr, len(fs))
	for i := range fs {
		t := &thr{id: i, run: make(chan struct{}), ev: make(chan int, 1), stop: -1}
		ts[i] = t
		f := fs[i]
		reg := make(chan struct{})
		go func() {
			thmu.Lock()
			ths[goid()] = t
			thmu.Unlock()
			close(reg)
			<-t.run
			f()
			t.ev <- 1
		}()
		<-reg
	}
	done := make([]bool, len(fs))
	blocked := make([]bool, len(fs))
	step := func(i, stop int) {
		if done[i] {
			return
		}
		t := ts[i]
		if !blocked[i] {
			t.stop = stop
			t.run <- struct{}{}
		}
		select {
		case k := <-t.ev:
			blocked[i] = false
			if k == 1 {
				done[i] = true
			}
		case <-time.After(30 * time.Millisecond):
			blocked[i] = true
			t.stop = -1
		}
	}
	for _, s := range cur.Sched {
		if s.T < len(fs) {
			step(s.T, s.Stop)
		}
	}
	for k := 0; k < 200; k++ {
		all := true
		for i := range ts {
			if !done[i] {
				all = false
				step(i, -1)
			}
		}
		if all {
			break
		}
	}
	for i := range ts {
		if !done[i] {
			Fail("deadlock: a concurrent operation never finished")
		}
	}
	thmu.Lock()
	ths = nil
	thmu.Unlock()
}
