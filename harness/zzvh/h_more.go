package zzvh

import (
	"crypto/tls"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

func uFrame(u string, body []byte) []byte {
	return frame(0, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u}), body)
}

// overlapWorld is a server with 1..5 global middlewares (registered one by one), 0..2 anchors, and four routes whose steps record into the
// message's own trace; the first step of a message whose last body byte is 1 waits for the gate.
func overlapWorld(route func(k int, body []byte) []byte) (srv *tcpx.TcpX, gate chan int, runs map[byte]*trace, globals, anchors []int) {
	srv = tcpx.NewTcpX(nil)
	gate = make(chan int)
	runs = map[byte]*trace{1: {}, 2: {}}
	tag := func(c *tcpx.Context) byte { return c.Stream[len(c.Stream)-1] }
	st := func(k int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			b := tag(c)
			runs[b].t = append(runs[b].t, k)
			if len(runs[b].t) == 1 && b == 1 {
				<-gate
			}
		}
	}
	ng := rt.Choose("globals", 5)
	for i := 0; i <= ng; i++ {
		globals = append(globals, 10+i)
		srv.UseGlobal(st(10 + i))
	}
	na := rt.Choose("anchors", 3)
	for i := 0; i < na; i++ {
		anchors = append(anchors, 20+i)
		srv.Use([]string{"a", "b"}[i], st(20+i))
	}
	srv.AddHandler(1, st(100))
	srv.AddHandler(2, st(200), st(201), st(202))
	srv.Any("/u", st(300))
	srv.Any("/v", st(400), st(401))
	return
}

// C07_overlap: two messages of one connection or of two for any of four routes (two IDs, two URLs, with own middlewares or not), 1..5 global and 0..2 anchor middlewares; the first
// message stops in its first middleware until the second has been handled: each runs exactly its own chain.
func C07_overlap() {
	quiet()
	srv, gate, runs, globals, anchors := overlapWorld(nil)
	selfs := [][]int{{100}, {200, 201, 202}, {300}, {400, 401}}
	mk := func(k int, b byte) []byte {
		switch k {
		case 0:
			return idFrame(1, []byte{b})
		case 1:
			return idFrame(2, []byte{b})
		case 2:
			return uFrame("/u", []byte{b})
		}
		return uFrame("/v", []byte{b})
	}
	k1, k2 := rt.Choose("first", 4), rt.Choose("second", 4)
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	d := c
	if rt.Bool("two") {
		d = l.Connect("9.9.9.9:2")
	}
	c.Send(mk(k1, 1))
	rt.Idle()
	d.Send(mk(k2, 2))
	rt.Idle()
	pre := append(append([]int{}, globals...), anchors...)
	rt.Assert(sameInts(runs[2].t, append(append([]int{}, pre...), selfs[k2]...)), "a message runs its own chain while another one is being handled")
	close(gate)
	rt.Idle()
	rt.Assert(sameInts(runs[1].t, append(append([]int{}, pre...), selfs[k1]...)), "a message goes on with its own chain after another one was handled meanwhile")
	rt.Reach("both")
}

// C07_special: the heartbeat message (default, custom or rewritten ID) and the auth message, configured to go through middlewares or not: not through, their handler
// runs alone; through, or with the mode off (its handler then being an ordinary one), the whole chain runs; ordinary messages always run theirs, before and after.
func C07_special() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	srv.UseGlobal(tr.mw(1))
	srv.Use("a", tr.mw(2))
	through := rt.Bool("through")
	hb := int32(tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
	d := time.Duration(1000000000)
	own := []int{9}
	mode := rt.Choose("mode", 6)
	switch mode {
	case 0: // default heartbeat
		rt.Assume(!through)
		srv.HeartBeatMode(true, d)
		own = nil
	case 1:
		hb = rt.I32("id")
		srv.HeartBeatModeDetail(true, d, through, hb)
		own = nil
	case 2:
		hb = rt.I32("id")
		srv.HeartBeatModeDetail(true, d, through, 77)
		srv.RewriteHeartBeatHandler(hb, tr.mw(9))
	case 3: // rewritten default
		rt.Assume(!through)
		hb = rt.I32("id")
		srv.HeartBeatMode(true, d)
		srv.RewriteHeartBeatHandler(hb, tr.mw(9))
	case 4:
		hb = rt.I32("id")
		srv.WithAuthDetail(true, d, through, hb, tr.mw(9))
	case 5: // off: an ordinary handler of that ID
		hb = rt.I32("id")
		if rt.Bool("auth") {
			srv.WithAuthDetail(false, d, through, hb, tr.mw(8))
		} else {
			srv.HeartBeatModeDetail(false, d, through, hb)
		}
		srv.AddHandler(hb, tr.mw(9))
		through = true
	}
	rt.Assume(hb != 5)
	srv.AddHandler(5, tr.mw(6), tr.mw(7))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	for i := 0; i < 3; i++ {
		tr.t = nil
		if i != 1 {
			c.Send(idFrame(5, nil))
			rt.Idle()
			rt.Assert(sameInts(tr.t, []int{1, 2, 6, 7}), "ordinary messages run their chain")
			continue
		}
		c.Send(idFrame(hb, nil))
		rt.Idle()
		want := own
		if through {
			want = append([]int{1, 2}, own...)
		}
		rt.Assert(sameInts(tr.t, want), "a heartbeat or auth message runs its handler alone unless configured to go through the middlewares")
		if mode == 2 || mode == 3 {
			old := int32(77)
			if mode == 3 {
				old = tcpx.DEFAULT_HEARTBEAT_MESSAGEID
			}
			if hb != old {
				tr.t = nil
				c.Send(idFrame(old, nil))
				rt.Idle()
				rt.Assert(len(tr.t) == 0, "the replaced heartbeat message has no handler any more")
				rt.Reach("replaced")
			}
		}
	}
	rt.Assert(!c.IsClosed(), "the connection stays open")
	rt.Reach("ran")
}

// C08_overlap: two messages with chains of 3 steps handled at the same time on one connection, the first stopping in any of its steps while the second, whose steps do anything,
// runs completely: the first then goes on as its own steps say.
func C08_overlap() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	a1, a2 := rt.Bytes("acts", 3), rt.Bytes("acts2", 3)
	for i := 0; i < 3; i++ {
		rt.Assume(a1[i] < doNextAbort && a2[i] < doNextAbort)
	}
	gate := make(chan int)
	stop := rt.Choose("stop", 3)
	after := rt.Bool("after") // stop after what the step does
	t := map[byte][]int{}
	st := func(i int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			b := c.Stream[len(c.Stream)-1]
			acts := a1
			if b == 2 {
				acts = a2
			}
			t[b] = append(t[b], 2*i)
			if b == 1 && i == stop && !after {
				<-gate
			}
			switch acts[i] {
			case doAbort:
				c.Abort()
			case doNext:
				c.Next()
			}
			if b == 1 && i == stop && after {
				<-gate
			}
			t[b] = append(t[b], 2*i+1)
		}
	}
	srv.UseGlobal(st(0))
	srv.AddHandler(3, st(1), st(2))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(idFrame(3, []byte{1}))
	rt.Idle()
	c.Send(idFrame(3, []byte{2}))
	rt.Idle()
	rt.Assert(sameInts(t[2], specRun(a2, 3)), "the second message runs its own chain")
	close(gate)
	rt.Idle()
	rt.Assert(sameInts(t[1], specRun(a1, 3)), "the first message goes on with its own chain")
	rt.Reach("both")
}

// C09_unknown: any message without a handler (any ID but one, any URL of 1..2 letters, unknown routing kind, URL routing without pattern or with one of another type), once or in a batch,
// TCP: no handler runs, the connection stays open and serves the next message; another connection too.
func C09_unknown() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran, closes := 0, 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	srv.AddHandler(7, func(c *tcpx.Context) { ran++ })
	srv.Any("/known", func(c *tcpx.Context) { ran += 100 })
	l := up(srv)
	c, d := l.Connect("9.9.9.9:1"), l.Connect("9.9.9.9:2")
	u := "/" + rt.Str("u", 1+rt.Choose("ulen", 2))
	letters(u[1:])
	id := rt.I32("id")
	var hdr string
	switch rt.Choose("kind", 6) {
	case 0:
		rt.Assume(id != 7)
		hdr = ""
	case 1:
		hdr = `"Router-Type":"URL_PATTERN","Router-Pattern-Value":"` + u + `"`
	case 2:
		hdr = `"Router-Type":"` + u + `"`
	case 3:
		hdr = `"Router-Type":"URL_PATTERN"`
	case 4:
		hdr = `"Router-Type":"URL_PATTERN","Router-Pattern-Value":7`
	case 5:
		rt.Assume(id != 7)
		hdr = `"Router-Type":"MESSAGE_ID","Router-Pattern-Value":"/known"`
	}
	batch := rt.Bool("batch")
	if batch {
		if hdr != "" {
			hdr += ","
		}
		hdr += `"` + pipedKey + `":"enable;2"`
	}
	f := frame(id, []byte("{"+hdr+"}"), rt.Bytes("b", 1))
	c.Send(f)
	if batch {
		c.Send(idFrame(7, nil))
	}
	rt.Idle()
	want := 0
	if batch {
		want = 1
	}
	rt.Assert(ran == want, "a message without a handler runs none and does not keep others of its batch from being handled")
	rt.Assert(!c.IsClosed() && closes == 0, "the connection stays open")
	c.Send(idFrame(7, nil))
	d.Send(idFrame(7, nil))
	rt.Idle()
	rt.Assert(ran == want+2, "later messages are handled")
	rt.Reach("later")
}

// C10_values: values of any kind (string, number, nil, pointer) under two string keys and a number key in both scopes: a stored value, nil included, is there and replaced by the next one.
func C10_values() {
	quiet()
	var c *tcpx.Context
	udp := rt.Bool("udp")
	if udp {
		pc, _ := rt.ListenPacket("udp", ":1")
		c = tcpx.NewUDPContext(pc, rt.FAddr{Net: "udp", S: "9.9.9.9:1"}, nil)
	} else {
		c = tcpx.NewContext(rt.NewConn("9.9.9.9:1"), nil)
	}
	x := 4
	vals := []interface{}{"s", 7, nil, &x, false}
	keys := []interface{}{rt.Str("k", 2), "key", 5}
	type cell struct {
		set bool
		v   interface{}
	}
	var ref [2][3]cell
	n := 2 + rt.Tier()
	for i := 0; i < n; i++ {
		sc, ki := rt.Choose("scope", 2), rt.Choose("key", 3)
		v := vals[rt.Choose("value", 5)]
		if sc == 0 {
			c.SetCtxPerRequest(keys[ki], v)
		} else {
			c.SetCtxPerConn(keys[ki], v)
		}
		ref[sc][ki] = cell{true, v}
		if udp {
			// a datagram is its own connection: the scopes are one
			ref[1-sc][ki] = cell{true, v}
		}
	}
	for ki := range keys {
		v, ok := c.GetCtxPerRequest(keys[ki])
		rt.Assert(ok == ref[0][ki].set && v == ref[0][ki].v, "request scope holds what was stored there")
		v, ok = c.GetCtxPerConn(keys[ki])
		rt.Assert(ok == ref[1][ki].set && v == ref[1][ki].v, "connection scope holds what was stored there")
	}
	rt.Reach("values")
}

// C11_many: PipeJSON of 9..17 messages with an arbitrary ID among the last, sent to a server and followed by another message: exactly that many frames, all handled in order.
func C11_many() {
	quiet()
	n := 9 + rt.Choose("n", 9)
	id := rt.I32("id")
	rt.Assume(id < 0 || id > 100)
	var args []interface{}
	for i := 0; i < n; i++ {
		x := i
		if i == n-2 {
			x = int(id)
		}
		args = append(args, x, i)
	}
	w := rt.NewConn("server")
	rt.Assert(tcpx.PipeJSON(w, args...) == nil, "the batch is sent")
	ws := w.Written()
	rt.Assert(len(ws) == 1, "the batch is one write")
	srv := tcpx.NewTcpX(nil)
	var ran []int
	running := 0
	h := func(c *tcpx.Context) {
		running++
		rt.Assert(running == 1, "one after another")
		var d int
		_, e := c.Bind(&d)
		rt.Assert(e == nil, "the body binds")
		ran = append(ran, d)
		running--
	}
	for i := 0; i < n; i++ {
		srv.AddHandler(int32(i), h)
	}
	srv.AddHandler(id, h)
	after := 0
	srv.Any("/after", func(c *tcpx.Context) { after++ })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(ws[0])
	c.Send(uFrame("/after", nil))
	rt.Idle()
	rt.Assert(len(ran) == n, "every message of the batch is handled once")
	for i := range ran {
		rt.Assert(ran[i] == i, "messages of a batch are handled in the order sent")
	}
	rt.Assert(after == 1 && !c.IsClosed(), "messages after the batch are handled")
	rt.Reach("many")
}

// C12_unframed: a frame whose declared length is negative, or whose header is any 1..3 bytes (thorough ..4) that are no JSON object or null, or whose batch announcement is malformed, from a client that then stays connected: the
// connection is closed with one close callback, no handler runs, also with further bytes behind it; another connection and a new one are served.
func C12_unframed() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	closes, ran, served := 0, 0, 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	srv.AddHandler(77, func(c *tcpx.Context) { served++ })
	l := up(srv)
	other := l.Connect("9.9.9.9:2")
	c := l.Connect("9.9.9.9:1")
	// a good message before
	if rt.Bool("before") {
		c.Send(idFrame(1, nil))
		rt.Idle()
		rt.Assert(ran == 1, "served before")
		ran = 0
	}
	var f []byte
	switch rt.Choose("kind", 3) {
	case 0:
		f = cat(be32(rt.U32("len")|1<<31), rt.Bytes("x", 12))
	case 1:
		h := rt.Bytes("h", 1+rt.Choose("hlen", 3+rt.Tier()))
		// no JSON value starts or ends like this
		k := h[0]
		rt.Assume(k != '{' && k != 'n' && k != ' ' && k != '\t' && k != '\n' && k != '\r')
		f = frame(1, h, nil)
	case 2:
		v := []string{`"enable;x"`, `"enable"`, `"enable;"`, `"enable;1;2"`, `7`, `["x"]`, `"enable; 2"`, `"enable;2 "`, `"enable;2.0"`, `"enable;0x2"`, `"enable;1e0"`}[rt.Choose("announce", 11)]
		f = frame(1, []byte(`{"`+pipedKey+`":`+v+`}`), nil)
	}
	if rt.Bool("more") {
		f = cat(f, idFrame(1, nil))
	}
	c.Send(f)
	rt.Idle()
	rt.Assert(c.IsClosed() && closes == 1, "bytes that cannot be framed close the connection, with one close callback")
	rt.Assert(ran == 0, "and run no handler")
	other.Send(idFrame(77, nil))
	rt.Idle()
	rt.Assert(served == 1, "other connections are served")
	l.Connect("9.9.9.9:3").Send(idFrame(77, nil))
	rt.Idle()
	rt.Assert(served == 2, "new connections are served")
	rt.Reach("closed")
}

// modes switches on any combination of heartbeat (far longer than the test), auth, pool and broadcast signals.
func modes(srv *tcpx.TcpX, hb, auth bool) {
	long := time.Duration(1000000)
	if hb && rt.Bool("heartbeat") {
		srv.HeartBeatModeDetail(true, long, false, 901)
	}
	if auth && rt.Bool("auth") {
		srv.WithAuthDetail(true, long, false, 902, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	if rt.Bool("pool") {
		srv.WithBuiltInPool(true)
	}
	if rt.Bool("signals") {
		srv.WithBroadCastSignal(true)
	}
}

// C14_modes: with any combination of heartbeat, pool, broadcast signals and deadlines configured as well, before or after: auth (any deadline of 1..1000 ticks) passes, denies and times out as it does alone, also for a second connection.
func C14_modes() {
	quiet()
	d := time.Duration(rt.Int("deadline", 1, 1000))
	srv := tcpx.NewTcpX(nil)
	first := rt.Bool("modes first")
	if first {
		modes(srv, true, false)
	}
	srv.WithAuthDetail(true, d, rt.Bool("through"), 9, func(c *tcpx.Context) {
		if b, _ := c.RawStream(); b[0] == 1 {
			c.RecvAuthPass()
		} else {
			c.RecvAuthDeny()
		}
	})
	if !first {
		modes(srv, true, false)
	}
	var l *rt.FListener
	l = up(srv)
	send := func(c *rt.FConn, b byte) { c.Send(idFrame(9, []byte{b})) }
	c, mute := l.Connect("9.9.9.9:1"), l.Connect("9.9.9.9:2")
	rt.Idle()
	g := time.Duration(rt.Int("at", 0, 999))
	rt.Assume(g < d)
	time.Sleep(g)
	rt.Idle()
	rt.Assert(!c.IsClosed() && !mute.IsClosed(), "nobody is closed before the deadline")
	pass := rt.Bool("pass")
	if pass {
		send(c, 1)
	} else {
		send(c, 2)
	}
	rt.Idle()
	rt.Assert(c.IsClosed() == !pass, "denied is closed at once, passed is not")
	rt.Assert(!mute.IsClosed(), "the other connection is not concerned")
	time.Sleep(d - g + 1)
	rt.Idle()
	rt.Assert(mute.IsClosed(), "an unauthenticated connection is closed at the deadline")
	time.Sleep(3 * d)
	rt.Idle()
	rt.Assert(c.IsClosed() == !pass, "a connection that passed is never closed by the auth mechanism")
	rt.Reach("decided")
}

// C13_modes: with any combination of auth (far longer), pool and broadcast signals as well: a connection (any interval of 2..1000 ticks) that beats once
// at any time before three intervals is kept until exactly three intervals after its beat, a mute one is dropped at three intervals.
func C13_modes() {
	quiet()
	d := time.Duration(rt.Int("interval", 2, 1000))
	srv := tcpx.NewTcpX(nil)
	first := rt.Bool("modes first")
	if first {
		modes(srv, false, true)
	}
	srv.HeartBeatMode(true, d)
	if !first {
		modes(srv, false, true)
	}
	lost := 0
	srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { lost++ })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	g := time.Duration(0)
	if rt.Bool("beats") {
		g = time.Duration(rt.Int("at", 1, 2999))
		rt.Assume(g < 3*d)
		time.Sleep(g)
		rt.Idle()
		rt.Assert(!c.IsClosed(), "not dropped before three silent intervals")
		c.Send(idFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, nil))
		rt.Idle()
		rt.Reach("beat")
	}
	time.Sleep(3*d - 1)
	rt.Idle()
	rt.Assert(!c.IsClosed() && lost == 0, "a heartbeat restarts the count")
	time.Sleep(2)
	rt.Idle()
	rt.Assert(c.IsClosed() && lost == 1, "dropped after three silent intervals")
	rt.Reach("dropped")
}

// C17_big: every reply function with a codec output (or JSON string) of any size up to 70000 bytes, TCP and UDP: one write with the whole frame.
func C17_big() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	rec := &recM{out: rt.Big("body", n)}
	w := newReplyWorld(rt.Bool("udp"), rec)
	other := newReplyWorld(false, rec)
	id := rt.I32("id")
	var e error
	switch rt.Choose("function", 4) {
	case 0:
		e = w.ctx.Reply(id, 1)
	case 1:
		e = w.ctx.ReplyWithMarshaller(rec, id, 1)
	case 2:
		e = other.ctx.SendToConn(w.ctx, id, 1)
	case 3:
		e = tcpx.NewTCPContext(rt.NewConn("x"), nil).SendToConn(w.ctx, id, 1)
	}
	rt.Assert(e == nil, "the reply is sent")
	out := w.out()
	rt.Assert(len(out) == 1, "a reply is exactly one write")
	rt.AssertBytesEq(out[0], frame(id, []byte("{}"), rec.out), "a reply is one complete frame")
	if n > 65536 {
		rt.Reach("large")
	}
}

// namedM is a codec of any name.
type namedM struct {
	recM
	name string
}

func (m *namedM) MarshalName() string { return m.name }

// C17_names: a codec configured on the context, or given to ReplyWithMarshaller, with any name of 0..4 letters or that of a built-in codec: its own output is sent.
func C17_names() {
	quiet()
	name := []string{"json", "xml", "protobuf", "proto", "yaml", "toml"}[rt.Choose("known", 6)]
	if rt.Bool("any") {
		name = rt.Str("name", rt.Choose("len", 5))
	}
	m := &namedM{name: name}
	m.out = rt.Bytes("out", 2)
	id := rt.I32("id")
	var w *replyWorld
	var e error
	if rt.Bool("given") {
		w = newReplyWorld(rt.Bool("udp"), tcpx.JsonMarshaller{})
		e = w.ctx.ReplyWithMarshaller(m, id, "x")
	} else {
		w = newReplyWorld(rt.Bool("udp"), m)
		e = w.ctx.Reply(id, "x")
	}
	rt.Assert(e == nil, "the reply is sent")
	out := w.out()
	rt.Assert(len(out) == 1, "a reply is exactly one write")
	rt.AssertBytesEq(out[0], frame(id, []byte("{}"), m.out), "the body is encoded by the codec given")
	rt.Reach("sent")
	// a function naming a built-in codec uses that one, unless the context's own codec is of that name
	k := rt.Choose("function", 5)
	rt.Assume(name != []string{"json", "xml", "protobuf", "yaml", "toml"}[k])
	v := xbody{Name: "n", N: 3}
	want, body := wantBody(k, v, &wrapperspb.StringValue{Value: "n"}, nil)
	w.out()
	n := len(out)
	e = reply(k, w, nil, nil, id, body, nil)
	out = w.out()
	rt.Assert(e == nil && len(out) == n+1, "the reply is sent")
	rt.AssertBytesEq(out[n], frame(id, []byte("{}"), want), "the body is encoded by the codec the function names")
	rt.Reach("named")
}

// C17_conc: two replies at the same time on one context, on contexts of one connection, or on two connections (TCP, UDP), every interleaving up to one (thorough two) preemptions:
// each is one complete frame of its own in one write to its own peer.
func C17_conc() {
	quiet()
	rt.Races()
	rt.Explore(1 + rt.Tier())
	udp := rt.Bool("udp")
	w := newReplyWorld(udp, nil)
	x := w
	two := rt.Bool("two")
	if two {
		if udp {
			p, _ := rt.ListenPacket("udp", ":2")
			x = &replyWorld{p: p.(*rt.FPacketConn)}
			x.ctx = tcpx.NewUDPContext(x.p, rt.FAddr{Net: "udp", S: "sender:7"}, nil)
		} else {
			x = newReplyWorld(false, nil)
		}
	}
	k1, k2 := rt.Choose("first", 3), rt.Choose("second", 3)
	i1, i2 := rt.I32("id1"), rt.I32("id2")
	rt.Assume(i1 != i2)
	var e1, e2 error
	run := func(w *replyWorld, k int, id int32, s string) error {
		switch k {
		case 0:
			return w.ctx.JSON(id, s)
		case 1:
			return w.ctx.Reply(id, s)
		}
		return w.ctx.ReplyWithMarshaller(tcpx.JsonMarshaller{}, id, s)
	}
	rt.Par(func() { e1 = run(w, k1, i1, "a") }, func() { e2 = run(x, k2, i2, "bb") })
	rt.Assert(e1 == nil && e2 == nil, "both are sent")
	f1, f2 := frame(i1, []byte("{}"), []byte(`"a"`)), frame(i2, []byte("{}"), []byte(`"bb"`))
	o := w.out()
	if two {
		p := x.out()
		rt.Assert(len(o) == 1 && len(p) == 1, "each reply is one write to its own peer")
		rt.AssertBytesEq(o[0], f1, "the first frame")
		rt.AssertBytesEq(p[0], f2, "the second frame")
	} else {
		rt.Assert(len(o) == 2, "each reply is one write")
		if len(o[0]) != len(f1) {
			o[0], o[1] = o[1], o[0]
		}
		rt.AssertBytesEq(o[0], f1, "each reply is one complete frame")
		rt.AssertBytesEq(o[1], f2, "each reply is one complete frame")
	}
	rt.Reach("both")
}

// C22_unpack: a JSON text that other codecs read differently or not at all is decoded as JSON by every unpacking entry without a marshaller (TCP, UDP contexts, server, plain); one that is no JSON
// (YAML, XML or TOML text) is refused by all of them.
func C22_unpack() {
	quiet()
	bad := []string{"", "Name: x", "<xbody><name>x</name></xbody>", "name = \"x\"\n", "\n\x03x"}
	k := rt.Choose("text", 5)
	body := `{"Name":"x","N":3}`
	if k > 0 {
		body = bad[k]
	}
	p := frame(1, []byte("{}"), []byte(body))
	var d xbody
	var e error
	switch rt.Choose("unpack", 7) {
	case 0:
		_, e = tcpx.UnpackWithMarshaller(p, &d, nil)
	case 1:
		_, e = tcpx.NewPackx(nil).Unpack(p, &d)
	case 2:
		x := tcpx.NewTCPContext(rt.NewConn("q"), tcpx.XmlMarshaller{})
		x.Stream = p
		_, e = x.BindWithMarshaller(&d, nil)
	case 3:
		x := tcpx.NewTCPContext(rt.NewConn("q"), nil)
		x.Stream = p
		_, e = x.Bind(&d)
	case 4:
		pc, _ := rt.ListenPacket("udp", ":1")
		x := tcpx.NewUDPContext(pc, rt.FAddr{Net: "udp", S: "s:1"}, nil)
		x.Stream = p
		_, e = x.Bind(&d)
	case 5:
		srv := tcpx.NewTcpX(nil)
		srv.AddHandler(1, func(c *tcpx.Context) { _, e = c.Bind(&d) })
		up(srv).Connect("c").Send(p)
		rt.Idle()
	case 6:
		x := tcpx.NewContext(rt.NewConn("q"), nil)
		x.Stream = p
		_, e = x.Bind(&d)
	}
	if k == 0 {
		rt.Assert(e == nil && d.Name == "x" && d.N == 3, "a missing marshaller decodes JSON")
		rt.Reach("json")
	} else {
		rt.Assert(e != nil, "a missing marshaller decodes nothing but JSON")
		rt.Reach("other")
	}
}

// C24_buffer: a UDP server with a buffer size of 40 or the default one (4096), and a datagram whose frame has any size up to exactly the buffer size: handled once with exactly that frame.
func C24_buffer() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var got [][]byte
	srv.AddHandler(1, func(c *tcpx.Context) { got = append(got, c.Stream) })
	size := 40
	if rt.Bool("default") {
		size = 4096
		go srv.ListenAndServeUDP("udp", ":1")
	} else {
		go srv.ListenAndServeUDP("udp", ":1", size)
	}
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	rt.Assert(p != nil, "the server listens")
	n := rt.Int("n", 0, size-18)
	f := idFrame(1, rt.Big("body", n))
	p.Deliver(f, "a:1")
	rt.Idle()
	p.Deliver(idFrame(1, nil), "b:1")
	rt.Idle()
	rt.Assert(len(got) == 2, "each datagram that fits the buffer is handled once")
	rt.AssertBytesEq(got[0], f, "with exactly its frame")
	rt.AssertBytesEq(got[1], idFrame(1, nil), "with exactly its frame")
	if len(f) == size {
		rt.Reach("full")
	}
}

// C25_independent: three messages built (for an ID or a URL, different ones or all the same) before any of them is used, a header entry (also nil) set on one: each keeps its own routing, and entries set on one are on no other.
func C25_independent() {
	quiet()
	n := 3
	msgs := make([]tcpx.Message, n)
	urls := []string{"/a", "/b", "/c"}
	ids := []int32{0, 1, 2}
	if rt.Bool("same") {
		urls, ids = []string{"/a", "/a", "/a"}, []int32{5, 5, 5}
	}
	var byURL [3]bool
	for i := 0; i < n; i++ {
		byURL[i] = rt.Bool("url")
		if byURL[i] {
			msgs[i] = tcpx.NewURLPatternMessage(urls[i], i)
		} else {
			msgs[i] = tcpx.NewMessage(ids[i], i)
		}
	}
	at := rt.Choose("at", n)
	msgs[at].Set("x", "y")
	var v interface{}
	if rt.Bool("nil") {
		msgs[at].Set("x", nil)
	} else {
		v = rt.Str("v", 1)
		msgs[at].Set("x", v)
	}
	for i := 0; i < n; i++ {
		if i == at {
			rt.Assert(msgs[i].Get("x") == v, "Get returns the value last set")
		} else {
			rt.Assert(msgs[i].Get("x") == nil, "an entry set on one message is on no other")
		}
		p, e := tcpx.PackWithMarshaller(tcpx.Message{MessageID: msgs[i].MessageID, Header: msgs[i].Header, Body: 1}, nil)
		rt.Assume(e == nil || i == at)
		if e != nil {
			continue
		}
		t, _ := tcpx.RouteTypeOf(p)
		u, _ := tcpx.URLPatternOf(p)
		id, _ := tcpx.MessageIDOf(p)
		if byURL[i] {
			rt.Assert(t == tcpx.URLPATTERN && u == urls[i], "each message carries its own URL pattern")
		} else {
			rt.Assert(t == tcpx.MESSAGEID && id == ids[i], "each message carries its own ID")
		}
	}
	rt.Reach("independent")
}

// C28_mixed: behind 0..2 further global or anchor middlewares, a middleware reads any number of bytes and the raw handler the rest, each read through either Conn or ConnReader, with 0..6 arbitrary bytes sent at once: together they see exactly the bytes
// the client sent; writes through Conn, ConnWriter or both arrive in order.
func C28_mixed() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	data := rt.Bytes("data", rt.Choose("len", 7))
	var got []byte
	rd := func(c *tcpx.Context, b []byte) (int, error) {
		if rt.Bool("viaconn") {
			return c.Conn.Read(b)
		}
		return c.ConnReader.Read(b)
	}
	if rt.Bool("middleware") {
		srv.UseGlobal(func(c *tcpx.Context) {
			b := make([]byte, 2)
			n, e := rd(c, b)
			got = append(got, b[:n]...)
			if e != nil {
				c.Abort()
			}
		})
	}
	switch rt.Choose("more", 3) {
	case 1:
		srv.UseGlobal(func(c *tcpx.Context) {}, func(c *tcpx.Context) {})
	case 2:
		srv.Use("a", func(c *tcpx.Context) {}, "b", func(c *tcpx.Context) {})
	}
	srv.HandleRaw = func(c *tcpx.Context) {
		for {
			b := make([]byte, 3)
			n, e := rd(c, b)
			got = append(got, b[:n]...)
			if e != nil {
				return
			}
			if rt.Bool("wviaconn") {
				c.Conn.Write(b[:n])
			} else {
				c.ConnWriter.Write(b[:n])
			}
		}
	}
	l := rawUp(srv)
	c := l.Connect("a:1")
	c.Send(data)
	rt.Idle()
	n := len(cat(c.Written()...))
	rt.AssertBytesEq(cat(c.Written()...), got[len(got)-n:], "what is written reaches the client at once and in order")
	c.SendEOF()
	rt.Idle()
	rt.AssertBytesEq(got, data, "reads through connection and reader together see exactly the bytes sent")
	rt.Reach("mixed")
}

// C28_overlap: two raw connections handled at the same time behind 1..5 global and 0..2 anchor middlewares, the first stopping in its first middleware until the second is in its handler: each runs its own chain; nothing of
// it is shared unsynchronised.
func C28_overlap() {
	quiet()
	rt.Races()
	srv := tcpx.NewTcpX(nil)
	gate := make(chan int)
	ta, tb := &trace{}, &trace{}
	var want []int
	st := func(k int) func(c *tcpx.Context) {
		want = append(want, k)
		return func(c *tcpx.Context) {
			if c.Conn.RemoteAddr().String() == "a:1" {
				ta.t = append(ta.t, k)
				if len(ta.t) == 1 {
					<-gate
				}
			} else {
				tb.t = append(tb.t, k)
			}
		}
	}
	ng := rt.Choose("globals", 5)
	for i := 0; i <= ng; i++ {
		srv.UseGlobal(st(10 + i))
	}
	na := rt.Choose("anchors", 3)
	for i := 0; i < na; i++ {
		srv.Use([]string{"a", "b"}[i], st(20+i))
	}
	srv.HandleRaw = st(99)
	l := rawUp(srv)
	l.Connect("a:1")
	rt.Idle()
	l.Connect("b:1")
	rt.Idle()
	rt.Assert(sameInts(tb.t, want), "a raw connection runs its own chain while another one is being handled")
	close(gate)
	rt.Idle()
	rt.Assert(sameInts(ta.t, want), "a raw connection goes on with its own chain")
	rt.Reach("both")
}

// C31_tls: a framed stream server of any stream network with a certificate loaded (any 1-letter file names, or a configuration set directly), with one that fails to load, or with none, started through ListenAndServe or
// ListenAndServeTCP on one or two addresses, then stopped and started again: every listener it opens encrypts with that certificate, or none does, and connections are served.
func C31_tls() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran := 0
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	cert, key := rt.Str("cert", 1), rt.Str("key", 1)
	secure := false
	how := rt.Choose("how", 4)
	switch how {
	case 0:
	case 1:
		rt.Assert(srv.LoadTLSFile(cert, key) == nil, "the certificate loads")
		secure = true
	case 2:
		rt.N.CertErr = errBroken
		rt.Assert(srv.LoadTLSFile(cert, key) != nil, "a certificate that cannot be loaded is an error")
		rt.N.CertErr = nil
	case 3:
		srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{[]byte(cert), []byte(key)}}}}
		secure = true
		if rt.Bool("failing") {
			rt.N.CertErr = errBroken
			rt.Assert(srv.LoadTLSFile("x", "y") != nil, "a certificate that cannot be loaded is an error")
		}
	}
	nets := []string{"tcp", "tcp4", "tcp6", "unix"}
	net := nets[rt.Choose("network", 4)]
	direct := rt.Bool("direct")
	start := func(addr string) {
		if direct {
			go srv.ListenAndServeTCP(net, addr)
		} else {
			go srv.ListenAndServe(net, addr)
		}
		rt.Idle()
	}
	start(":1")
	two := rt.Bool("two")
	if two {
		start(":2")
	}
	check := func() {
		n := 0
		for _, l := range rt.N.Listeners {
			if l.IsClosed() {
				continue
			}
			n++
			rt.Assert(l.TLS == secure, "a server with a certificate encrypts every connection, one without none")
			if secure {
				c := l.TLSConf
				rt.Assert(c != nil && len(c.Certificates) == 1 && len(c.Certificates[0].Certificate) == 2, "with the certificate loaded")
				rt.Assert(string(c.Certificates[0].Certificate[0]) == cert && string(c.Certificates[0].Certificate[1]) == key, "with the certificate loaded")
			}
			k := ran
			l.Connect("p:1").Send(idFrame(1, nil))
			rt.Idle()
			rt.Assert(ran == k+1, "connections are served")
		}
		want := 1
		if two {
			want = 2
		}
		rt.Assert(n == want, "every address is listened on")
	}
	check()
	rt.Assert(srv.Stop(rt.Bool("all")) == nil, "the server stops")
	rt.Idle()
	rt.Assert(srv.Start() == nil, "the server starts again")
	rt.Idle()
	check()
	if secure {
		rt.Reach("secure")
	} else {
		rt.Reach("plain")
	}
}
