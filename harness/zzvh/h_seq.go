package zzvh

import (
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// C07_again: a middleware key used, un-used and used again with another function, before, between and after handler registrations by ID and URL: each handler keeps the function that was in use when it was registered.
func C07_again() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	url := rt.Bool("url")
	add := func(id int32, name string, h int) {
		if url {
			srv.Any(name, tr.mw(h))
		} else {
			srv.AddHandler(id, tr.mw(h))
		}
	}
	srv.Use("a", tr.mw(1))
	add(1, "/x", 11)
	srv.UnUse("a")
	add(2, "/y", 12)
	srv.Use("a", tr.mw(2))
	add(3, "/z", 13)
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	k := rt.Choose("which", 3)
	id := int32(1 + k)
	name := []string{"/x", "/y", "/z"}[k]
	if url {
		c.Send(frame(0, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: name}), nil))
	} else {
		c.Send(idFrame(id, nil))
	}
	rt.Idle()
	switch k {
	case 0:
		rt.Assert(sameInts(tr.t, []int{1, 11}), "a handler keeps the middleware that was in use when it was registered")
		rt.Reach("first")
	case 1:
		rt.Assert(sameInts(tr.t, []int{12}), "a handler registered while the key was not in use runs without it")
		rt.Reach("second")
	case 2:
		rt.Assert(sameInts(tr.t, []int{1, 13}) || sameInts(tr.t, []int{2, 13}), "a handler registered while the key was in use again runs it once")
		rt.Reach("third")
	}
}

// C09_empty: the empty URL pattern registered (or not) beside any one-letter one; a URL-routed message whose pattern is absent, empty or the letter, over TCP and UDP, any ID: exactly the handler of its pattern runs.
func C09_empty() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	one := rt.Str("one", 1)
	letters(one)
	empty := rt.Bool("registered")
	e, o, i := 0, 0, 0
	if empty {
		srv.Any("", func(c *tcpx.Context) { e++ })
	}
	srv.Any(one, func(c *tcpx.Context) { o++ })
	srv.AddHandler(0, func(c *tcpx.Context) { i++ })
	h := map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN}
	k := rt.Choose("pattern", 3)
	if k == 1 {
		h[tcpx.HEADER_ROUTER_VALUE] = ""
	}
	if k == 2 {
		h[tcpx.HEADER_ROUTER_VALUE] = one
	}
	f := frame(rt.I32("id"), jsonOf(h), []byte("1"))
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		rt.OpenPacket("udp", ":2").Deliver(f, "s:1")
	} else {
		up(srv).Connect("9.9.9.9:1").Send(f)
	}
	rt.Idle()
	rt.Assert(i == 0, "a URL-routed message does not reach the handler of an ID")
	if k == 2 {
		rt.Assert(o == 1 && e == 0, "exactly the handler of the pattern runs")
		rt.Reach("letter")
	} else if empty {
		rt.Assert(o == 0 && e == 1, "exactly the handler of the pattern runs")
		rt.Reach("empty")
	} else {
		rt.Assert(o == 0 && e == 0, "no handler runs for an unregistered pattern")
		rt.Reach("none")
	}
}

// C12_kinds: a message of an unknown routing kind (any of 1..2 letters), of a URL pattern that is absent, empty or unregistered, or of an unregistered ID, with an empty or short body, over TCP or UDP: nothing crashes, and the next message of
// the same client is handled.
func C12_kinds() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	n := 0
	srv.AddHandler(1, func(c *tcpx.Context) { n++ })
	srv.Any("/u", func(c *tcpx.Context) { n++ })
	if rt.Bool("global") {
		srv.UseGlobal(func(c *tcpx.Context) {})
	}
	h := map[string]interface{}{}
	id := int32(1)
	switch rt.Choose("kind", 5) {
	case 0:
		s := rt.Str("kindname", 1+rt.Choose("len", 2))
		letters(s)
		h[tcpx.HEADER_ROUTER_KEY] = s
	case 1:
		h[tcpx.HEADER_ROUTER_KEY] = tcpx.URLPATTERN
	case 2:
		h[tcpx.HEADER_ROUTER_KEY] = tcpx.URLPATTERN
		h[tcpx.HEADER_ROUTER_VALUE] = ""
	case 3:
		s := rt.Str("pattern", 1+rt.Choose("len", 2))
		letters(s)
		h[tcpx.HEADER_ROUTER_KEY] = tcpx.URLPATTERN
		h[tcpx.HEADER_ROUTER_VALUE] = s
	case 4:
		id = rt.I32("id")
		rt.Assume(id != 1)
	}
	f := frame(id, jsonOf(h), rt.Bytes("b", 8*rt.Choose("blen", 2)))
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		p := rt.OpenPacket("udp", ":2")
		p.Deliver(f, "s:1")
		rt.Idle()
		rt.Assert(n == 0, "what has no handler runs none")
		p.Deliver(idFrame(1, nil), "s:1")
		rt.Idle()
		rt.Assert(n == 1 && !p.IsClosed(), "later datagrams are served")
		rt.Reach("udp")
		return
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(f)
	rt.Idle()
	rt.Assert(n == 0, "what has no handler runs none")
	c.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(n == 1 && !c.IsClosed(), "the next message is handled")
	rt.Reach("tcp")
}

// C14_again: any sequence of 4 (thorough 5) messages, each passing, denying or neither, after 0..2 of which the connection goes online under a name, any deadline of 1..1000 ticks not yet reached: the first result decides, no later one closes a
// connection that has passed, and every handler returns.
func C14_again() {
	quiet()
	d := time.Duration(rt.Int("deadline", 1, 1000))
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("pool") {
		srv.WithBuiltInPool(true)
	}
	returned := 0
	srv.WithAuthDetail(true, d, rt.Bool("through"), 7, func(c *tcpx.Context) {
		b, _ := c.RawStream()
		switch b[0] {
		case 1:
			c.RecvAuthPass()
		case 2:
			c.RecvAuthDeny()
		case 3:
			c.SetUsername("bob")
			c.Online("bob")
		}
		returned++
	})
	srv.AddHandler(5, func(x *tcpx.Context) { returned++ })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	first, sent := 0, 0
	for i := 0; i < 4+rt.Tier(); i++ {
		k := rt.Choose("what", 4)
		if k == 0 {
			c.Send(idFrame(5, nil))
		} else {
			c.Send(idFrame(7, []byte{byte(k)}))
		}
		sent++
		rt.Idle()
		if first == 0 && (k == 1 || k == 2) {
			first = k
		}
		rt.Assert(returned == sent, "every handler returns")
		rt.Assert(c.IsClosed() == (first == 2), "the first result decides")
		if first == 2 {
			rt.Reach("denied")
			return
		}
	}
	time.Sleep(2 * d)
	rt.Idle()
	rt.Assert(c.IsClosed() == (first == 0), "closed at the deadline exactly without a pass")
	if first == 1 {
		c.Send(idFrame(5, nil))
		rt.Idle()
		rt.Assert(returned == sent+1, "a connection that passed goes on")
		rt.Reach("kept")
	} else {
		rt.Reach("timeout")
	}
}

// C16_dead: a server with one of 3 pairs of endpoints, one of whose listeners fails on its own: the other goes on serving; Stop (closing all connections or not) closes it, Start opens and serves both again.
func C16_dead() {
	quiet()
	pairs := [][]ep{
		{{"s", "tcp", ":1"}, {"s", "tcp", ":2"}},
		{{"r", "tcp", ":1"}, {"p", "udp", ":1"}},
		{{"s", "tcp", ":1"}, {"r", "tcp", ":2"}},
	}
	w := &stopWorld{srv: tcpx.NewTcpX(nil), eps: pairs[rt.Choose("pair", len(pairs))]}
	if rt.Bool("signals") {
		w.srv.WithBroadCastSignal(true)
	}
	w.begin()
	die := 0
	if w.eps[1].kind != "p" {
		die = rt.Choose("which", 2)
	}
	l := rt.OpenListener(w.eps[die].network, w.eps[die].addr)
	l.AcceptErr = errAccept
	l.Connect("9.9.9.9:3")
	rt.Idle()
	alive := w.eps[1-die]
	n := w.handled
	if alive.kind == "p" {
		rt.OpenPacket(alive.network, alive.addr).Deliver(idFrame(1, nil), "9.9.9.9:7")
	} else {
		rt.OpenListener(alive.network, alive.addr).Connect("9.9.9.9:7").Send(w.msg(alive, 1))
	}
	rt.Idle()
	rt.Assert(w.handled == n+1, "the other listener goes on serving")
	rt.Assert(w.srv.Stop(rt.Bool("all")) == nil, "a running server can be stopped")
	rt.Idle()
	w.listening(false, "stop closes every listener")
	l.AcceptErr = nil
	rt.Assert(w.srv.Start() == nil, "a stopped server can be started")
	rt.Idle()
	w.listening(true, "every former listener is open again, once")
	w.serves("a restarted server serves")
	rt.Reach("again")
}

// C16_closeerr: two connections in the pool and one beside it, any of whose sockets report an error when closed; Stop(true) with broadcast or with the pool alone: all that is promised is closed, and the pool is empty.
func C16_closeerr() {
	quiet()
	sig := rt.Bool("signals")
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	if sig {
		srv.WithBroadCastSignal(true)
	}
	lf := &life{}
	lf.hook(srv)
	srv.AddHandler(2, func(c *tcpx.Context) {
		b, _ := c.RawStream()
		c.Online(string(b))
	})
	l := up(srv)
	names := []string{"a", "b", "c"}
	var cs []*rt.FConn
	for i := 0; i < 3; i++ {
		c := l.Connect("9.9.9.9:" + names[i])
		if rt.Bool("fails") {
			c.CloseErr = errBroken
		}
		cs = append(cs, c)
		rt.Idle()
		if i < 2 {
			c.Send(idFrame(2, []byte(names[i])))
			rt.Idle()
		}
	}
	pool := lf.ctxs[0].GetPoolRef()
	rt.Assert(pool.GetClientPool("a") != nil && pool.GetClientPool("b") != nil, "online")
	rt.Assert(srv.Stop(true) == nil, "a running server can be stopped")
	rt.Idle()
	rt.Assert(cs[0].IsClosed() && cs[1].IsClosed(), "every pooled connection is closed")
	rt.Assert(cs[2].IsClosed() == sig, "another connection is closed exactly if promised")
	rt.Assert(pool.GetClientPool("a") == nil && pool.GetClientPool("b") == nil, "the pool is emptied")
	rt.Assert(lf.ctxs[0].IsOffline() && lf.ctxs[1].IsOffline(), "closed connections are offline")
	want := 2
	if sig {
		want = 3
	}
	rt.Assert(lf.closed == want, "each closed connection's close callback runs once")
	rt.Reach("stopped")
}

// C17_urls: two or three URL-routed messages on one connection (or datagrams of one sender) with any patterns out of two one-letter ones: each reply by URL pattern carries the pattern of its own request.
func C17_urls() {
	quiet()
	srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	us := []string{rt.Str("u", 1), rt.Str("v", 1)}
	letters(us[0])
	letters(us[1])
	rt.Assume(us[0] != us[1])
	h := func(c *tcpx.Context) {
		var e error
		if b, _ := c.RawStream(); b[0] == '2' {
			e = c.ProtobufURLPattern(&wrapperspb.StringValue{Value: "x"})
		} else {
			e = c.JSONURLPattern("x")
		}
		rt.Assert(e == nil, "replying by URL pattern succeeds")
	}
	srv.Any(us[0], h)
	srv.Any(us[1], h)
	udp := rt.Bool("udp")
	var p *rt.FPacketConn
	var c *rt.FConn
	if udp {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		p = rt.OpenPacket("udp", ":2")
	} else {
		c = up(srv).Connect("9.9.9.9:1")
	}
	for i := 0; i < 3; i++ {
		u := us[rt.Choose("which", 2)]
		f := frame(0, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: u}), []byte([]string{"1", "2"}[rt.Choose("how", 2)]))
		var o []byte
		if udp {
			p.Deliver(f, "s:1")
			rt.Idle()
			w := p.Written()
			rt.Assert(len(w) == i+1, "each reply is exactly one write")
			o = w[i].B
		} else {
			c.Send(f)
			rt.Idle()
			w := c.Written()
			rt.Assert(len(w) == i+1, "each reply is exactly one write")
			o = w[i]
		}
		t, e := tcpx.RouteTypeOf(o)
		rt.Assert(e == nil && t == tcpx.URLPATTERN, "the reply selects URL routing")
		got, e := tcpx.URLPatternOf(o)
		rt.Assert(e == nil && got == u, "the reply carries the request's URL pattern")
	}
	rt.Reach("replied")
}

// C18_callback: the connect callback closes the new connection (through its context once or twice, or its socket directly), or goes online with it before; framed and raw servers, with any combination of pool, broadcast, heartbeat
// and auth, a message arriving with the connection or not, and a socket that reports an error when closed or not: one close callback, offline, gone from the pool; the next connection lives.
func C18_callback() {
	quiet()
	raw := rt.Bool("raw")
	how := rt.Choose("how", 4)
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	if rt.Bool("signals") {
		srv.WithBroadCastSignal(true)
	}
	if rt.Bool("heartbeat") {
		srv.HeartBeatMode(true, time.Second)
	}
	if rt.Bool("auth") {
		srv.WithAuthDetail(true, time.Second, false, 50, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	var ctxs []*tcpx.Context
	closed := 0
	srv.OnConnect = func(c *tcpx.Context) {
		ctxs = append(ctxs, c)
		if len(ctxs) > 1 {
			return
		}
		if how == 3 {
			rt.Assert(c.Online("bob") == nil, "online in the connect callback")
		}
		if how == 2 {
			c.Conn.Close()
			return
		}
		c.CloseConn()
		if how == 1 {
			c.CloseConn()
		}
		rt.Assert(c.IsOffline(), "a closed connection is offline")
	}
	srv.OnClose = func(c *tcpx.Context) { closed++ }
	srv.AddHandler(1, func(c *tcpx.Context) {})
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 1)
		for {
			if _, e := c.ConnReader.Read(b); e != nil {
				return
			}
		}
	}
	var l *rt.FListener
	if raw {
		go srv.ListenAndServeRaw("tcp", ":1")
		rt.Idle()
		l = rt.OpenListener("tcp", ":1")
	} else {
		l = up(srv)
	}
	c := rt.NewConn("9.9.9.9:1")
	if rt.Bool("close fails") {
		c.CloseErr = errBroken
	}
	if rt.Bool("message") {
		c.Send(idFrame(1, nil))
	}
	l.Push(c)
	rt.Idle()
	rt.Assert(c.IsClosed(), "the socket is closed")
	rt.Assert(len(ctxs) == 1 && closed == 1, "the close callback runs exactly once")
	rt.Assert(ctxs[0].IsOffline() && !ctxs[0].IsOnline(), "offline")
	rt.Assert(ctxs[0].GetPoolRef().GetClientPool("bob") == nil, "gone from the pool")
	d := l.Connect("9.9.9.9:2")
	rt.Idle()
	rt.Assert(len(ctxs) == 2 && closed == 1 && !d.IsClosed() && ctxs[1].IsOnline(), "the next connection lives")
	rt.Reach("closed")
}

// C18_closeerr: a framed connection, online under a name, whose socket reports an error when closed; ended by the client, a failing read, a handler closing its context or its socket, or a send from elsewhere closing it: one close callback, offline, gone from the pool.
func C18_closeerr() {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	lf := &life{}
	lf.hook(srv)
	srv.AddHandler(1, func(c *tcpx.Context) { c.Online("bob") })
	srv.AddHandler(2, func(c *tcpx.Context) {
		rt.Assert(c.CloseConn() != nil, "the error of the socket is reported")
	})
	srv.AddHandler(3, func(c *tcpx.Context) { c.Conn.Close() })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.CloseErr = errBroken
	c.Send(idFrame(1, nil))
	rt.Idle()
	pool := lf.ctxs[0].GetPoolRef()
	rt.Assert(pool.GetClientPool("bob") != nil, "online")
	switch rt.Choose("how", 5) {
	case 0:
		c.SendEOF()
	case 1:
		c.SendErr(errBroken)
	case 2:
		c.Send(idFrame(2, nil))
	case 3:
		c.Send(idFrame(3, nil))
	case 4:
		lf.ctxs[0].CloseConn()
	}
	rt.Idle()
	rt.Assert(c.IsClosed() && lf.closed == 1, "the close callback runs exactly once")
	rt.Assert(lf.ctxs[0].IsOffline() && !lf.ctxs[0].IsOnline(), "offline")
	rt.Assert(pool.GetClientPool("bob") == nil, "gone from the pool")
	d := l.Connect("9.9.9.9:2")
	d.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(pool.GetClientPool("bob") != nil && !d.IsClosed(), "the name can be used again")
	rt.Reach("ended")
}

// C24_small: datagrams that are frames with a header of 0..2 bytes and a body of 0..2 arbitrary bytes (16 bytes and up), any ID: handled exactly once if registered, with exactly those bytes.
func C24_small() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var got [][]byte
	srv.AddHandler(4, func(c *tcpx.Context) { got = append(got, append([]byte(nil), c.Stream...)) })
	go srv.ListenAndServe("udp", ":2")
	rt.Idle()
	p := rt.OpenPacket("udp", ":2")
	id := rt.I32("id")
	f := frame(id, []byte("{}")[:2*rt.Choose("header", 2)], rt.Bytes("b", rt.Choose("blen", 3)))
	p.Deliver(f, "s:1")
	rt.Idle()
	if id == 4 {
		rt.Assert(len(got) == 1, "a complete frame is handled once")
		rt.AssertBytesEq(got[0], f, "with exactly its bytes")
		rt.Reach("handled")
	} else {
		rt.Assert(len(got) == 0, "no handler, nothing runs")
	}
	p.Deliver(idFrame(4, nil), "s:1")
	rt.Idle()
	rt.Assert(len(got) >= 1 && !p.IsClosed(), "later datagrams are served")
}

// C10_internal: request values under any of the keys "url_pattern", "router_type", "handlers", "username" or any 1-letter one, of any kind (string, number, nil), set by a middleware of a message routed by ID or URL (TCP and UDP),
// whose handler asks for its routing kind, URL pattern and user name and replies by URL pattern: the value is what it was, there is none unless set, and the reply carries the message's own pattern.
func C10_internal() {
	quiet()
	one := rt.Str("one", 1)
	letters(one)
	key := []string{"url_pattern", "router_type", "handlers", "username", "stream", "offset", one}[rt.Choose("key", 7)]
	var val interface{}
	switch rt.Choose("value", 3) {
	case 0:
		val = "URL_PATTERN"
	case 1:
		val = 7
	}
	set := rt.Bool("set")
	byURL := rt.Bool("byurl")
	srv := tcpx.NewTcpX(nil)
	ran := 0
	check := func(c *tcpx.Context) {
		v, ok := c.GetCtxPerRequest(key)
		rt.Assert(ok == set && (!set || v == val), "a request value is what was stored, and absent unless stored")
	}
	srv.UseGlobal(func(c *tcpx.Context) {
		if set {
			c.SetCtxPerRequest(key, val)
		}
		check(c)
	}, func(c *tcpx.Context) {
		kind := c.RouterType()
		want := tcpx.MESSAGEID
		if byURL {
			want = tcpx.URLPATTERN
		}
		rt.Assert(kind == want, "the routing kind is the message's own")
		check(c)
		u, e := c.GetURLPattern()
		uw := ""
		if byURL {
			uw = "/u"
		}
		rt.Assert(e == nil && u == uw, "the URL pattern is the message's own")
		check(c)
	})
	h := func(c *tcpx.Context) {
		ran++
		check(c)
		rt.Assert(c.JSONURLPattern("x") == nil, "reply")
		check(c)
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	f := idFrame(1, nil)
	if byURL {
		f = frame(1, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: "/u"}), nil)
	}
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		rt.OpenPacket("udp", ":2").Deliver(f, "s:1")
		rt.Idle()
	} else {
		c := up(srv).Connect("9.9.9.9:1")
		c.Send(f)
		rt.Idle()
		w := c.Written()
		rt.Assert(len(w) == 1, "one reply")
		u, e := tcpx.URLPatternOf(w[0])
		rt.Assert(e == nil && (u == "/u" || !byURL), "the reply carries the request's URL pattern")
	}
	rt.Assert(ran == 1, "the handler runs")
	rt.Reach("asked")
}

// C13_panic: any interval of 1..1000 ticks and a loss handler that returns, panics, closes the connection itself, or beats in the name of the connection; another connection beats: the silent one is dropped after three intervals all the same, its
// handler ran once, its close callback ran once, and the other one is not dropped.
func C13_panic() {
	quiet()
	d := time.Duration(rt.Int("interval", 1, 1000))
	srv := tcpx.NewTcpX(nil)
	srv.HeartBeatMode(true, d)
	how := rt.Choose("handler", 4)
	lost, closes := 0, 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) {
		lost++
		switch how {
		case 1:
			panic("loss handler")
		case 2:
			c.CloseConn()
		case 3:
			c.RecvHeartBeat()
		}
	})
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	time.Sleep(2 * d)
	rt.Idle()
	rt.Assert(!c.IsClosed() && lost == 0, "not before three intervals")
	o := l.Connect("9.9.9.9:2")
	rt.Idle()
	time.Sleep(d + d)
	rt.Idle()
	rt.Assert(c.IsClosed() && lost == 1 && closes == 1, "dropped after three silent intervals, the handler having run once")
	rt.Assert(!o.IsClosed(), "another connection has its own count")
	o.Send(idFrame(1392, nil))
	rt.Idle()
	time.Sleep(2*d + 0)
	rt.Idle()
	rt.Assert(lost == 1 && closes == 1, "nothing more happens")
	time.Sleep(2 * d)
	rt.Idle()
	rt.Assert(o.IsClosed() && lost == 2 && closes == 2, "the other one is dropped when it has been silent itself")
	rt.Reach("dropped")
}
