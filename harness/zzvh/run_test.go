package zzvh

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/fwhezfwhez/tcpx/zzvrt"
)

type ncase struct {
	zzvrt.Case
	NoBubble bool `json:"nobubble"`
}

// TestCase runs one case natively and leaves the process.
func TestCase(t *testing.T) {
	f := os.Getenv("VCASE")
	if f == "" {
		t.Skip("no case")
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var c ncase
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	h := Registry[c.Harness]
	if h == nil {
		t.Fatal("no harness " + c.Harness)
	}
	out := os.Getenv("VRESULT")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if os.Getenv("VSTDOUT") == "" {
		os.Stdout = null
	}
	run := func() {
		zzvrt.Begin(&c.Case)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(zzvrt.AssumeFailed); ok {
						zzvrt.End().Assume = "assumption: " + a.What
						return
					}
					fmt.Fprintln(os.Stderr, "harness panic")
					panic(r)
				}
			}()
			h()
		}()
		rb, _ := json.Marshal(zzvrt.End())
		ioutil.WriteFile(out, rb, 0644)
		os.Exit(0)
	}
	if c.NoBubble {
		zzvrt.IdleFn = func() { time.Sleep(30 * time.Millisecond) }
		run()
		return
	}
	synctest.Test(t, func(t *testing.T) {
		zzvrt.IdleFn = synctest.Wait
		run()
	})
}
