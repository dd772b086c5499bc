package zzvh

import (
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

func urlFrame(id int32, url string, body []byte) []byte {
	return frame(id, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: url}), body)
}

// C27_history: every history of 4 (thorough 5) calls out of handler registrations for two arbitrary (possibly equal) message IDs and two URL patterns, with
// and without own middlewares, Use and UnUse of two keys and of an unknown key, and seven malformed calls: exactly the conflicting and malformed
// ones panic, and afterwards every route runs what was registered by the accepted calls alone.
func C27_history() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	ids := []int32{rt.I32("id0"), rt.I32("id1")}
	urls := []string{"/u", "/v"}
	keys := []string{"a", "b"}
	inuse := [2]bool{}
	seen := [2]bool{}
	var order []int
	type route struct {
		id    int32
		url   string
		byURL bool
		run   []int
	}
	var routes []route
	mids := func() []int {
		var r []int
		for _, m := range order {
			if inuse[m] {
				r = append(r, m+1)
			}
		}
		return r
	}
	n := 4 + rt.Tier()
	refused, accepted := 0, 0
	for i := 0; i < n; i++ {
		op := rt.Choose("op", 16)
		bad := false
		var f func()
		self := 100 + 10*i
		switch {
		case op < 4: // message IDs, one or two steps
			id := ids[op&1]
			for _, r := range routes {
				if !r.byURL && r.id == id {
					bad = true
				}
			}
			run := []int{self}
			if op >= 2 {
				run = []int{self + 1, self}
				f = func() { srv.AddHandler(id, tr.mw(self+1), tr.mw(self)) }
			} else {
				f = func() { srv.AddHandler(id, tr.mw(self)) }
			}
			if !bad {
				routes = append(routes, route{id: id, run: append(mids(), run...)})
			}
		case op < 6: // URL patterns
			url := urls[op-4]
			for _, r := range routes {
				if r.byURL && r.url == url {
					bad = true
				}
			}
			f = func() { srv.Any(url, tr.mw(self+1), tr.mw(self)) }
			if !bad {
				routes = append(routes, route{url: url, byURL: true, run: append(mids(), self+1, self)})
			}
		case op < 8: // Use
			k := op - 6
			bad = inuse[k]
			f = func() { srv.Use(keys[k], tr.mw(k+1)) }
			if !bad {
				inuse[k] = true
				if !seen[k] {
					seen[k] = true
					order = append(order, k)
				}
			}
		case op < 10: // UnUse
			k := op - 8
			bad = !inuse[k]
			f = func() { srv.UnUse(keys[k]) }
			inuse[k] = false
		default:
			bad = true
			switch op {
			case 10:
				f = func() { srv.UnUse("unknown") }
			case 11:
				f = func() { srv.Use("odd") }
			case 12:
				f = func() { srv.Use(7, tr.mw(77)) }
			case 13:
				f = func() { srv.Use("nofunc", "notafunc") }
			case 14:
				f = func() { srv.AddHandler(ids[0]) }
			case 15:
				f = func() { srv.Any("/u") }
			}
		}
		p := panics(f)
		rt.ObsInt("op", op)
		if bad {
			refused++
			rt.Assert(p, "a conflicting or malformed registration panics")
		} else {
			accepted++
			rt.Assert(!p, "a registration without conflict succeeds")
		}
	}
	if len(routes) == 0 {
		return
	}
	if refused > 0 && accepted > 1 {
		rt.Reach("refused and accepted")
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	for _, r := range routes {
		tr.t = nil
		if r.byURL {
			c.Send(urlFrame(0, r.url, nil))
		} else {
			c.Send(idFrame(r.id, nil))
		}
		rt.Idle()
		rt.Assert(sameInts(tr.t, r.run), "after refused registrations every route runs exactly what was registered for it")
	}
	rt.Reach("served")
}

// C27_multi: Use of two keys in one call, UnUse of two keys in one call (all accepted ones), with two arbitrary keys of 1 letter: Use of two equal keys is refused, of
// different ones accepted; handlers registered afterwards run both.
func C27_multi() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	a, b := rt.Str("a", 1), rt.Str("b", 1)
	p := panics(func() { srv.Use(a, tr.mw(1), b, tr.mw(2)) })
	if a == b {
		rt.Assert(p, "using the same key twice is refused")
		rt.Reach("same")
		return
	}
	rt.Assert(!p, "using two keys at once is accepted")
	srv.AddHandler(1, tr.mw(100))
	rt.Assert(!panics(func() { srv.UnUse(a, b) }), "un-using two keys at once is accepted")
	srv.AddHandler(2, tr.mw(101))
	rt.Assert(panics(func() { srv.UnUse(a) }), "un-using a key that is not in use is refused")
	rt.Assert(panics(func() { srv.UnUse(b) }), "un-using a key that is not in use is refused")
	rt.Assert(!panics(func() { srv.Use(b, tr.mw(2), a, tr.mw(1)) }), "keys can be used again")
	srv.AddHandler(3, tr.mw(102))
	c := up(srv).Connect("x")
	for i, want := range [][]int{{1, 2, 100}, {101}, {1, 2, 102}} {
		tr.t = nil
		c.Send(idFrame(int32(i+1), nil))
		rt.Idle()
		rt.Assert(sameInts(tr.t, want), "a handler runs the middlewares in use at its registration")
	}
	rt.Reach("served")
}

// C27_modes: the handlers that heartbeat mode, its detailed variant, its rewriting and auth mode register conflict with, or are free of conflict with, a user's handler for an
// arbitrary message ID, and rewriting frees the replaced heartbeat handler's ID.
func C27_modes() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	hb := rt.I32("hb")
	user := rt.I32("user")
	ran := 0
	h := func(c *tcpx.Context) { ran++ }
	nop := func(c *tcpx.Context) {}
	srv.AddHandler(user, h)
	switch rt.Choose("mode", 4) {
	case 0:
		p := panics(func() { srv.HeartBeatMode(true, 1000) })
		rt.Assert(p == (user == tcpx.DEFAULT_HEARTBEAT_MESSAGEID), "heartbeat mode conflicts with a handler of its message ID only")
	case 1:
		p := panics(func() { srv.HeartBeatModeDetail(true, 1000, false, hb) })
		rt.Assert(p == (user == hb), "heartbeat mode conflicts with a handler of its message ID only")
	case 2:
		p := panics(func() { srv.WithAuthDetail(true, 1000, false, hb, nop) })
		rt.Assert(p == (user == hb), "auth mode conflicts with a handler of its message ID only")
	case 3:
		rt.Assume(user != hb)
		srv.HeartBeatModeDetail(true, 1000, false, hb)
		to := rt.I32("to")
		p := panics(func() { srv.RewriteHeartBeatHandler(to, nop) })
		rt.Assert(p == (user == to), "rewriting the heartbeat handler conflicts with a handler of its new message ID only")
		if !p && to != hb {
			rt.Assert(!panics(func() { srv.AddHandler(hb, nop) }), "the replaced heartbeat handler's message ID is free again")
			rt.Reach("freed")
		}
	}
	rt.Reach("modes")
}
