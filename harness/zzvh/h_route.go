package zzvh

import (
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

const pipedKey = "[tcpx-buffer-in-serial]"

// up starts the stream server and returns its listener.
func up(srv *tcpx.TcpX) *rt.FListener {
	go srv.ListenAndServe("tcp", ":1")
	rt.Idle()
	l := rt.OpenListener("tcp", ":1")
	rt.Assert(l != nil, "the server listens")
	return l
}

// trace records what ran.
type trace struct{ t []int }

func (t *trace) mw(k int) func(c *tcpx.Context) {
	return func(c *tcpx.Context) { t.t = append(t.t, k) }
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func obsInts(l string, a []int) {
	for _, x := range a {
		rt.ObsInt(l, x)
	}
}

// hexp is a registered handler and what should run for it.
type hexp struct {
	frame []byte
	mids  []int // anchors in use at registration
	self  []int
}

// history performs k registration operations and returns the server, the
// global middlewares and the handlers with the middlewares they should have.
func history(tr *trace, k int) (srv *tcpx.TcpX, globals []int, order []int, hs []hexp) {
	srv = tcpx.NewTcpX(nil)
	id := rt.I32("id")
	inuse := map[int]bool{}
	seen := map[int]bool{}
	keys := []string{"a", "b"}
	urls := []string{"/u", "/v", "/w", "/x", "/y", "/z", "/1", "/2"}
	reg := func(kind int) {
		n := len(hs)
		h := hexp{}
		for _, m := range order {
			if inuse[m] {
				h.mids = append(h.mids, m)
			}
		}
		switch kind {
		case 0:
			h.frame = idFrame(id+int32(n), nil)
			h.self = []int{100 + n}
			srv.AddHandler(id+int32(n), tr.mw(100+n))
		case 1:
			h.frame = idFrame(id+int32(n), nil)
			h.self = []int{200 + n, 300 + n, 100 + n}
			srv.AddHandler(id+int32(n), tr.mw(200+n), tr.mw(300+n), tr.mw(100+n))
		case 2:
			h.frame = frame(id, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": urls[n]}), nil)
			h.self = []int{200 + n, 100 + n}
			srv.Any(urls[n], tr.mw(200+n), tr.mw(100+n))
		}
		hs = append(hs, h)
	}
	for i := 0; i < k; i++ {
		switch op := rt.Choose("op", 8); op {
		case 0:
			g := 10 + len(globals)
			if len(globals) == 0 {
				globals = append(globals, g, g+1)
				srv.UseGlobal(tr.mw(g), tr.mw(g+1))
			} else {
				globals = append(globals, g)
				srv.UseGlobal(tr.mw(g))
			}
		case 1, 2:
			m := op
			rt.Assume(!inuse[m])
			srv.Use(keys[m-1], tr.mw(m))
			inuse[m] = true
			if !seen[m] {
				seen[m] = true
				order = append(order, m)
			}
		case 3, 4:
			m := op - 2
			rt.Assume(inuse[m])
			srv.UnUse(keys[m-1])
			inuse[m] = false
		default:
			reg(op - 5)
		}
	}
	reg(rt.Choose("last", 3))
	return
}

// C07_routed: every history of 5 (thorough 6) operations out of global registration, Use/UnUse of two keys and handler registrations
// by message ID (with and without own middlewares) and by URL pattern, followed by one more handler; any message ID:
// every handler's message runs exactly the specified chain in order.
func C07_routed() {
	quiet()
	tr := &trace{}
	srv, globals, _, hs := history(tr, 5+rt.Tier())
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	for _, h := range hs {
		tr.t = nil
		c.Send(h.frame)
		rt.Idle()
		want := append(append(append([]int{}, globals...), h.mids...), h.self...)
		obsInts("ran", tr.t)
		rt.Assert(sameInts(tr.t, want), "a message runs global, anchor and own middlewares, then its handler, once each and in order")
	}
	rt.Assert(!c.IsClosed(), "the connection stays open")
	rt.Reach("ran")
}

// C07_callback: every history of 4 (thorough 5) such operations with a message callback set, also over UDP: all global and anchor
// middlewares run before the callback, in or out of use.
func C07_callback() {
	quiet()
	tr := &trace{}
	srv, globals, order, hs := history(tr, 4+rt.Tier())
	srv.OnMessage = tr.mw(999)
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		rt.OpenPacket("udp", ":1").Deliver(hs[0].frame, "9.9.9.9:1")
	} else {
		l := up(srv)
		c := l.Connect("9.9.9.9:1")
		c.Send(hs[0].frame)
	}
	rt.Idle()
	want := append(append(append([]int{}, globals...), order...), 999)
	obsInts("ran", tr.t)
	rt.Assert(sameInts(tr.t, want), "the callback runs after every global and anchor middleware")
	rt.Reach("ran")
}

// C07_long: a middleware put in use before 2100 registrations and another unused half way: handlers registered at any of 4
// positions run exactly the middlewares in use there (histories far longer than the internal limits).
func C07_long() {
	quiet()
	rt.Opt("maxSteps", 4000000)
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	id := int32(7)
	srv.Use("a", tr.mw(1), "b", tr.mw(2))
	n := 2100
	for i := 0; i < n; i++ {
		if i == 1000 {
			srv.UnUse("b")
		}
		if i == 1500 {
			srv.Use("c", tr.mw(3))
		}
		srv.AddHandler(id+int32(i), tr.mw(100))
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	for _, at := range []int{0, 999, 1000, 1499, 1500, 2050, 2099} {
		tr.t = nil
		c.Send(idFrame(id+int32(at), nil))
		rt.Idle()
		want := []int{1}
		if at < 1000 {
			want = append(want, 2)
		}
		if at >= 1500 {
			want = append(want, 3)
		}
		want = append(want, 100)
		rt.Assert(sameInts(tr.t, want), "a message runs the middlewares in use when its handler was registered")
	}
	rt.Reach("long")
}

// chain semantics: what each step does is decided by a byte.
const (
	doPlain = iota
	doAbort
	doNext
	doNextAbort
	doAbortNext
	doNextNext
	doKinds
)

const chainMax = 7

type chainRun struct {
	t    []int
	acts func(c *tcpx.Context) []byte
}

func (r *chainRun) step(i int) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		r.t = append(r.t, 2*i)
		b := r.acts(c)
		switch b[i] {
		case doAbort:
			c.Abort()
		case doNext:
			c.Next()
		case doNextAbort:
			c.Next()
			c.Abort()
		case doAbortNext:
			c.Abort()
			c.Next()
		case doNextNext:
			c.Next()
			c.Next()
		}
		r.t = append(r.t, 2*i+1)
	}
}

// chainSpec is the reference: a queue of steps, Next drains it, Abort empties it.
type chainSpec struct {
	t    []int
	q    []int
	acts []byte
}

func (s *chainSpec) drain() {
	for len(s.q) > 0 {
		i := s.q[0]
		s.q = s.q[1:]
		s.t = append(s.t, 2*i)
		switch s.acts[i] {
		case doAbort:
			s.q = nil
		case doNext:
			s.drain()
		case doNextAbort:
			s.drain()
			s.q = nil
		case doAbortNext:
			s.q = nil
			s.drain()
		case doNextNext:
			s.drain()
			s.drain()
		}
		s.t = append(s.t, 2*i+1)
	}
}

func specRun(acts []byte, n int) []int {
	s := &chainSpec{acts: acts}
	for i := 0; i < n; i++ {
		s.q = append(s.q, i)
	}
	s.drain()
	return s.t
}

func bodyOf(c *tcpx.Context) []byte {
	b := c.Stream
	return b[len(b)-chainMax:]
}

// C08_chain: chains of 5 (thorough 7) steps by message ID, 4 by URL pattern, 3 by message callback (TCP or UDP) and raw handler, each step doing
// any of: nothing, Abort, Next, Next+Abort, Abort+Next, Next twice; a second message follows and runs its full chain.
func C08_chain() {
	quiet()
	r := &chainRun{acts: bodyOf}
	srv := tcpx.NewTcpX(nil)
	acts := rt.Bytes("acts", chainMax)
	n := 4
	for _, a := range acts {
		rt.Assume(a < doKinds)
	}
	kind := rt.Choose("kind", 5)
	var mk func(acts []byte) []byte
	srv.UseGlobal(r.step(0))
	srv.Use("a", r.step(1))
	switch kind {
	case 0:
		if rt.Tier() == 1 {
			n = 7
			srv.UseGlobal()
			srv.AddHandler(3, r.step(2), r.step(3), r.step(4), r.step(5), r.step(6))
		} else {
			n = 5
			srv.AddHandler(3, r.step(2), r.step(3), r.step(4))
		}
		mk = func(a []byte) []byte { return idFrame(3, a) }
	case 1:
		srv.Any("/u", r.step(2), r.step(3))
		mk = func(a []byte) []byte {
			return frame(0, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/u"}), a)
		}
	case 2, 3:
		srv.UseGlobal(r.step(0))
		n = 3
		srv = tcpx.NewTcpX(nil)
		srv.UseGlobal(r.step(0))
		srv.Use("a", r.step(1))
		srv.OnMessage = r.step(2)
		mk = func(a []byte) []byte { return idFrame(3, a) }
	case 4:
		n = 3
		srv.HandleRaw = r.step(2)
		r.acts = func(c *tcpx.Context) []byte { return acts }
	}
	for i := n; i < len(acts); i++ {
		rt.Assume(acts[i] == 0)
	}
	want := specRun(acts, n)
	clean := make([]byte, chainMax)
	full := specRun(clean, n)
	switch kind {
	case 3:
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		p := rt.OpenPacket("udp", ":1")
		p.Deliver(mk(acts), "9.9.9.9:1")
		rt.Idle()
		rt.Assert(sameInts(r.t, want), "the chain runs as Abort and Next say")
		r.t = nil
		p.Deliver(mk(clean), "9.9.9.9:1")
		rt.Idle()
		rt.Assert(sameInts(r.t, full), "the next message runs its full chain")
	case 4:
		go srv.ListenAndServeRaw("tcp", ":1")
		rt.Idle()
		l := rt.OpenListener("tcp", ":1")
		l.Connect("9.9.9.9:1")
		rt.Idle()
		rt.Assert(sameInts(r.t, want), "the chain runs as Abort and Next say")
		r.t = nil
		r.acts = func(c *tcpx.Context) []byte { return clean }
		l.Connect("9.9.9.9:2")
		rt.Idle()
		rt.Assert(sameInts(r.t, full), "the next connection runs its full chain")
	default:
		l := up(srv)
		c := l.Connect("9.9.9.9:1")
		c.Send(mk(acts))
		rt.Idle()
		rt.Assert(sameInts(r.t, want), "the chain runs as Abort and Next say")
		r.t = nil
		c.Send(mk(clean))
		rt.Idle()
		rt.Assert(sameInts(r.t, full), "the next message runs its full chain")
	}
	rt.Reach("ran")
}

// C08_batch: a pipelined batch of two messages, 3 steps each, any behaviour of the first: the second runs its full chain.
func C08_batch() {
	quiet()
	r := &chainRun{acts: bodyOf}
	srv := tcpx.NewTcpX(nil)
	acts := rt.Bytes("acts", chainMax)
	for i, a := range acts {
		rt.Assume(a < doKinds && (i < 3 || a == 0))
	}
	srv.UseGlobal(r.step(0))
	srv.AddHandler(3, r.step(1), r.step(2))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(cat(frame(3, jsonOf(map[string]interface{}{pipedKey: "enable;2"}), acts), idFrame(3, make([]byte, chainMax))))
	rt.Idle()
	want := append(specRun(acts, 3), specRun(make([]byte, chainMax), 3)...)
	rt.Assert(sameInts(r.t, want), "each message of a batch runs its own chain")
	rt.Reach("ran")
}

// C09_sequence: any 3 (thorough 4) messages on a connection, each of any ID and of routing kind none, explicit message ID, URL (any 2-byte
// pattern), unknown (any 2-byte name), with handlers for two IDs and two URLs: each is handled by exactly its own handler.
func C09_sequence() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	id := rt.I32("hid")
	u := "/" + rt.Str("hurl", 1)
	rt.Assume(u[1] > ' ' && u[1] < 0x7f && u[1] != '"' && u[1] != '\\' && u[1] != 'q')
	type ran struct {
		who    int
		stream []byte
	}
	var log []ran
	h := func(k int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			log = append(log, ran{k, c.Stream})
			// reading the URL pattern or routing kind of one message must not stick
			c.GetURLPattern()
			c.RouterType()
		}
	}
	srv.AddHandler(id, h(1))
	srv.AddHandler(id+5, h(2))
	srv.Any(u, h(3))
	srv.Any("/q", h(4))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	n := 3 + rt.Tier()
	for i := 0; i < n; i++ {
		log = nil
		mid := rt.I32("mid")
		mu := "/" + rt.Str("murl", 1)
		rt.Assume(mu[1] > ' ' && mu[1] < 0x7f && mu[1] != '"' && mu[1] != '\\')
		want := 0
		byID := func() {
			if mid == id {
				want = 1
			} else if mid == id+5 {
				want = 2
			}
		}
		var f []byte
		switch rt.Choose("kind", 6) {
		case 0:
			f = frame(mid, []byte("{}"), nil)
			byID()
		case 1:
			f = frame(mid, []byte(`{"Router-Type":"MESSAGE_ID","Router-Pattern-Value":"`+mu+`"}`), nil)
			byID()
		case 2:
			f = frame(mid, []byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"`+mu+`"}`), nil)
			if mu == u {
				want = 3
			} else if mu == "/q" {
				want = 4
			}
		case 3:
			f = frame(mid, []byte(`{"Router-Type":"`+mu+`","Router-Pattern-Value":"/q"}`), nil)
		case 4:
			f = frame(mid, []byte(`{"Router-Pattern-Value":"/q"}`), []byte{1})
			byID()
		case 5:
			f = frame(mid, []byte("null"), nil)
			byID()
		}
		c.Send(f)
		rt.Idle()
		if want == 0 {
			rt.Assert(len(log) == 0, "a message without handler runs none")
			rt.Reach("none")
		} else {
			rt.Assert(len(log) == 1 && log[0].who == want, "a message runs exactly the handler registered for it")
			rt.AssertBytesEq(log[0].stream, f, "the handler gets that message")
			rt.Reach("handled")
		}
		rt.Assert(!c.IsClosed(), "the connection stays open")
	}
}

// C09_overlap: two messages on a connection and one on another whose handlers run at the same time (each waits until all have
// started): every handler still sees its own message, and the reply goes to its own connection.
func C09_overlap() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	gate := make(chan int)
	started := 0
	done := 0
	srv.AddHandler(1, func(c *tcpx.Context) {
		started++
		b := c.Stream
		<-gate
		id, e := tcpx.MessageIDOf(c.Stream)
		rt.Assert(e == nil && id == 1, "the handler still sees its message")
		rt.AssertBytesEq(c.Stream, b, "the handler still sees its message")
		rt.Assert(c.Reply(11, nil) == nil, "reply")
		done++
	})
	srv.Any("/u", func(c *tcpx.Context) {
		started++
		<-gate
		u, e := c.GetURLPattern()
		rt.Assert(e == nil && u == "/u", "the handler still sees its message")
		rt.Assert(c.Reply(12, nil) == nil, "reply")
		done++
	})
	l := up(srv)
	c1, c2 := l.Connect("9.9.9.9:1"), l.Connect("9.9.9.9:2")
	urlMsg := frame(0, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/u"}), rt.Bytes("b1", 2))
	idMsg := idFrame(1, rt.Bytes("b2", 2))
	if rt.Bool("swap") {
		c1.Send(cat(urlMsg, idMsg))
	} else {
		c1.Send(cat(idMsg, urlMsg))
	}
	c2.Send(idMsg)
	rt.Idle()
	rt.Assert(started == 3, "messages of a connection do not wait for each other")
	close(gate)
	rt.Idle()
	rt.Assert(done == 3, "every handler finishes")
	w1, w2 := c1.Written(), c2.Written()
	rt.Assert(len(w1) == 2 && len(w2) == 1, "replies go to the connection of the message")
	rt.AssertBytesEq(w2[0], idFrame(11, nil), "the reply to the second connection")
	rt.Reach("overlapped")
}

// C10_scopes: two connections with two messages each, any 2-byte keys and values: request values are seen by later steps of the same message
// only, connection values by all messages of the connection only; user names go only through the user-name API.
func C10_scopes() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	type scope struct{ req, conn map[string]string }
	kr, kc := rt.Str("kr", 2), rt.Str("kc", 2)
	n := 0
	var have = map[int]string{} // connection value by connection
	who := 0
	srv.UseGlobal(func(c *tcpx.Context) {
		n++
		_, ok := c.GetCtxPerRequest(kr)
		rt.Assert(!ok, "a new message has no request values")
		v, ok := c.GetCtxPerConn(kc)
		if want, set := have[who]; set {
			s, isS := v.(string)
			rt.Assert(ok && isS && s == want, "a connection value is seen by later messages of the connection")
			rt.Reach("kept")
		} else {
			rt.Assert(!ok, "a connection value is not seen by other connections")
			rt.Reach("fresh")
		}
		c.SetCtxPerRequest(kr, n)
		_, ok = c.GetCtxPerConn(kr)
		rt.Assert(!ok || kr == kc, "a request value does not appear in connection scope")
	})
	srv.AddHandler(1, func(c *tcpx.Context) {
		v, ok := c.GetCtxPerRequest(kr)
		i, isI := v.(int)
		rt.Assert(ok && isI && i == n, "a request value is seen by later steps of the message")
		s := rt.Str("val", 1)
		c.SetCtxPerConn(kc, s)
		have[who] = s
		w, ok := c.GetCtxPerConn(kc)
		ws, isS := w.(string)
		rt.Assert(ok && isS && ws == s, "a connection value is read back")
		_, ok = c.GetCtxPerRequest(kc)
		rt.Assert(!ok || kr == kc, "a connection value does not appear in request scope")
		_, ok = c.Username()
		rt.Assert(!ok && c.GetUsername() == "", "no user name unless set")
	})
	l := up(srv)
	cs := []*rt.FConn{l.Connect("9.9.9.9:1"), l.Connect("9.9.9.9:2")}
	batch := rt.Bool("batch")
	for i := 0; i < 3; i++ {
		who = rt.Choose("who", 2)
		if batch {
			cs[who].Send(cat(frame(1, jsonOf(map[string]interface{}{pipedKey: "enable;2"}), nil), idFrame(1, nil)))
		} else {
			cs[who].Send(idFrame(1, nil))
		}
		rt.Idle()
	}
	if batch {
		rt.Assert(n == 6, "every message is handled")
	} else {
		rt.Assert(n == 3, "every message is handled")
	}
}

// C10_overlap: two messages of a connection handled at the same time, same 1-byte key: neither sees the other's request value, also after the
// other has finished.
func C10_overlap() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	gates := map[int32]chan int{1: make(chan int), 2: make(chan int)}
	k := rt.Str("k", 1)
	ok1 := 0
	h := func(id int32, val string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			c.SetCtxPerRequest(k, val)
			<-gates[id]
			v, ok := c.GetCtxPerRequest(k)
			s, isS := v.(string)
			rt.Assert(ok && isS && s == val, "a request value is private to its message")
			ok1++
		}
	}
	srv.AddHandler(1, h(1, rt.Str("v1", 1)))
	srv.AddHandler(2, h(2, rt.Str("v2", 1)))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(cat(idFrame(1, nil), idFrame(2, nil)))
	rt.Idle()
	first := int32(1 + rt.Choose("first", 2))
	close(gates[first])
	rt.Idle()
	rt.Assert(ok1 == 1, "one finished")
	close(gates[3-first])
	rt.Idle()
	rt.Assert(ok1 == 2, "both finished")
	rt.Reach("both")
}

// C10_reserved: any key of up to 7 bytes: refused in connection scope exactly when it starts with "tcpx-"; a refused one stores
// nothing and the user name stays what the user-name API set, for TCP and UDP contexts.
func C10_reserved() {
	quiet()
	k := rt.Str("k", rt.Choose("len", 8))
	if rt.Bool("username") {
		k = "tcpx-username"
	}
	var c *tcpx.Context
	if rt.Bool("udp") {
		pc, _ := rt.ListenPacket("udp", ":1")
		c = tcpx.NewUDPContext(pc, rt.FAddr{"udp", "9.9.9.9:1"}, nil)
	} else {
		c = tcpx.NewContext(rt.NewConn("9.9.9.9:1"), nil)
	}
	c.SetUsername("bob")
	reserved := len(k) >= 5 && k[:5] == "tcpx-"
	p := panics(func() { c.SetCtxPerConn(k, "x") })
	rt.Assert(p == reserved, "keys starting with tcpx- are refused, others are not")
	v, ok := c.GetCtxPerConn(k)
	if !reserved {
		s, isS := v.(string)
		rt.Assert(ok && isS && s == "x", "the value is stored")
		rt.Reach("stored")
	} else {
		s, isS := v.(string)
		rt.Assert(!ok || (isS && s == "bob"), "a refused value is not stored")
		rt.Reach("refused")
	}
	u, ok := c.Username()
	rt.Assert(ok && u == "bob" && c.GetUsername() == "bob", "the user name is the one set through its API")
	other := tcpx.NewContext(rt.NewConn("9.9.9.9:2"), nil)
	_, ok = other.Username()
	rt.Assert(!ok, "another connection has no user name")
}
