package zzvh

import (
	"encoding/json"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"io"
	"strconv"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

// C14_reconnect: a connection passes, is denied or does neither, goes on or ends; then one from the same address, the same host or another host arrives, which passes, or not: it has its own deadline (any of 10..1000 ticks) and its own result.
func C14_reconnect() {
	quiet()
	d := time.Duration(rt.Int("deadline", 10, 1000))
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("pool") {
		srv.WithBuiltInPool(true)
	}
	ran := 0
	srv.WithAuthDetail(true, d, false, 7, func(c *tcpx.Context) {
		b, _ := c.RawStream()
		c.SetUsername("bob")
		if b[0] == 1 {
			c.RecvAuthPass()
		} else {
			c.RecvAuthDeny()
		}
		ran++
	})
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	first := rt.Choose("first", 3)
	if first > 0 {
		c.Send(idFrame(7, []byte{byte(first)}))
		rt.Idle()
		rt.Assert(c.IsClosed() == (first == 2), "the first connection's own result")
	}
	end := rt.Bool("end")
	if end && first != 2 {
		c.SendEOF()
		rt.Idle()
	}
	time.Sleep(2)
	n := l.Connect([]string{"9.9.9.9:1", "9.9.9.9:2", "8.8.8.8:1"}[rt.Choose("addr", 3)])
	rt.Idle()
	n.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(!n.IsClosed(), "a new connection has its whole deadline")
	pass := rt.Bool("pass")
	if pass {
		n.Send(idFrame(7, []byte{1}))
		rt.Idle()
	}
	time.Sleep(d - 1)
	rt.Idle()
	rt.Assert(c.IsClosed() == (end || first != 1), "the first connection's deadline is its own")
	rt.Assert(!n.IsClosed(), "the former connection's deadline is not the new one's")
	time.Sleep(2)
	rt.Idle()
	rt.Assert(n.IsClosed() == !pass, "the new connection is dropped at its deadline exactly without a pass of its own")
	if pass {
		rt.Reach("passed")
	} else {
		rt.Reach("dropped")
	}
}

// C11_nested: a batch of 2..4 messages one of which (not the first) has an announcement of its own of 1..9 messages or of a senseless text, sent whole, followed by a batch of 2 or by a single message, after which nothing comes: each batch
// is handled as soon as it has arrived, in order, and what follows as well.
func C11_nested() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("mw") {
		srv.UseGlobal(func(c *tcpx.Context) { c.Next() })
	}
	var ran []int32
	h := func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); ran = append(ran, id) }
	for i := 1; i <= 6; i++ {
		srv.AddHandler(int32(i), h)
	}
	n := 2 + rt.Choose("n", 3)
	at := rt.Choose("at", n)
	ann := []string{`1`, `2`, `9`, `x`}[rt.Choose("announced", 4)]
	var s []byte
	for i := 0; i < n; i++ {
		hd := []byte("null")
		if i == 0 {
			hd = pipedHeader(string([]byte{byte('0' + n)}))
		} else if i == at {
			hd = pipedHeader(ann)
			rt.Reach("nested")
		}
		s = append(s, frame(int32(i+1), hd, nil)...)
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(s)
	rt.Idle()
	rt.Assert(len(ran) == n, "the messages of a batch are handled when they have arrived")
	want := n
	if rt.Bool("batch") {
		c.Send(cat(frame(5, pipedHeader("2"), nil), frame(6, []byte("null"), nil)))
		want += 2
	} else {
		c.Send(idFrame(5, nil))
		want++
	}
	rt.Idle()
	rt.Assert(len(ran) == want, "what follows a batch is handled")
	for i, id := range ran {
		k := int32(i + 1)
		if i >= n {
			k = int32(5 + i - n)
		}
		rt.Assert(id == k, "in order, each once")
	}
	rt.Assert(!c.IsClosed(), "the connection stays open")
}

// C24_pool: a UDP server with or without the built-in pool, signals, heartbeat and auth switched on, and 3 datagrams of one or two senders, one of which may go online under a name: each is handled once, without values, user name or context of another, and
// answered at its sender.
func C24_pool() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("pool") {
		srv.WithBuiltInPool(true)
	}
	if rt.Bool("signals") {
		srv.WithBroadCastSignal(true)
	}
	if rt.Bool("watch") {
		srv.HeartBeatMode(true, 1<<50)
		srv.WithAuthDetail(true, 1<<50, false, 77, func(c *tcpx.Context) {})
	}
	who := rt.Choose("online", 4)
	var seen []*tcpx.Context
	var order []byte
	srv.AddHandler(1, func(c *tcpx.Context) {
		b, e := c.RawStream()
		rt.Assert(e == nil && len(b) == 1, "the body arrives")
		_, r := c.GetCtxPerRequest("k")
		_, k := c.GetCtxPerConn("k")
		_, u := c.Username()
		rt.Assert(!r && !k && !u, "a datagram sees nothing of another one")
		for _, s := range seen {
			rt.Assert(s != c, "contexts are not shared")
		}
		c.SetCtxPerRequest("k", 1)
		c.SetCtxPerConn("k", 1)
		if int(b[0]) == who {
			c.SetUsername("bob")
			c.Online("bob")
		}
		rt.Assert(c.Reply(9, string([]byte{'0' + b[0]})) == nil, "the reply is sent")
		seen = append(seen, c)
		order = append(order, b[0])
	})
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	from := make([]string, 3)
	for i := range from {
		from[i] = []string{"a:1", "b:2"}[rt.Choose("from", 2)]
		p.Deliver(idFrame(1, []byte{byte(i)}), from[i])
		if rt.Bool("wait") {
			rt.Idle()
		}
	}
	rt.Idle()
	rt.Assert(len(order) == 3, "each is handled once")
	out := p.Written()
	rt.Assert(len(out) == 3, "each is answered once")
	for i := range from {
		hit := 0
		for _, o := range out {
			if string(o.B) == string(frame(9, []byte("{}"), []byte{'"', byte('0' + i), '"'})) {
				rt.Assert(o.Addr.String() == from[i], "the answer goes to the sender")
				hit++
			}
		}
		rt.Assert(hit == 1, "its own answer")
	}
	rt.Assert(!p.IsClosed(), "the server goes on")
	rt.Reach("done")
}

// C26_udp: a UDP server with signals on or off and the pool on, two datagrams of two senders whose handlers use scoped values and a user name and reply, and Stop(true), Stop(false) or State, all at the same time, up to 2 (thorough 3) preemptions: no
// data race, no deadlock; each datagram handled at most once with its own values, the socket closed exactly by a Stop.
func C26_udp() {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	if rt.Bool("signals") {
		srv.WithBroadCastSignal(true)
	}
	got := make([]int, 2)
	srv.AddHandler(1, func(c *tcpx.Context) {
		b, e := c.RawStream()
		rt.Assert(e == nil && len(b) == 1, "the body arrives")
		_, had := c.GetCtxPerConn("k")
		rt.Assert(!had, "values are not shared")
		c.SetCtxPerConn("k", 1)
		c.SetUsername("u")
		c.Reply(9, "r")
		got[int(b[0])]++
	})
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	op := rt.Choose("op", 3)
	n := 1 + rt.Choose("n", 2)
	fs := []func(){func() {
		switch op {
		case 0:
			rt.Assert(srv.Stop(true) == nil, "the server is stopped")
		case 1:
			rt.Assert(srv.Stop(false) == nil, "the server is stopped")
		case 2:
			srv.State()
		}
	}}
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() { p.Deliver(idFrame(1, []byte{byte(i)}), []string{"a:1", "b:2"}[i]) })
	}
	rt.Races()
	rt.Explore(2 + rt.Tier())
	rt.Par(fs...)
	rt.Explore(0)
	rt.Idle()
	for i := 0; i < n; i++ {
		rt.Assert(got[i] <= 1, "at most once")
		rt.Assert(op != 2 || got[i] == 1, "exactly once on a running server")
	}
	rt.Assert(p.IsClosed() == (op != 2), "the socket is closed exactly by Stop")
	rt.Reach("done")
}

// C26_watch: a framed or raw server with heartbeat (3 intervals pass), auth, signals and a heartbeat-loss handler that uses its context, all on, and a connection whose handler (and connect callback) uses scoped values, replies and beats: from the
// arrival of the connection to its end, no data race and no deadlock, up to 1 (thorough 2) preemptions.
func C26_watch() {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	srv.HeartBeatModeDetail(true, 100, false, 77)
	srv.WithAuthDetail(true, 1000, false, 78, func(c *tcpx.Context) { c.RecvAuthPass() })
	lost, closes, ran := 0, 0, 0
	srv.OnHeartbeatLoss = func(c *tcpx.Context) {
		lost++
		c.SetCtxPerConn("l", 1)
		c.Reply(5, "lost")
	}
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("c", 1) }
	srv.OnClose = func(c *tcpx.Context) { closes++; c.IsOnline() }
	h := func(c *tcpx.Context) {
		_, ok := c.GetCtxPerConn("c")
		rt.Assert(ok, "the connect callback comes first")
		c.Online("u")
		c.RecvHeartBeat()
		c.Reply(4, "r")
		ran++
	}
	srv.AddHandler(1, h)
	raw := rt.Bool("raw")
	srv.HandleRaw = func(c *tcpx.Context) {
		h(c)
		b := make([]byte, 1)
		c.ConnReader.Read(b)
	}
	rt.Races()
	var l *rt.FListener
	if raw {
		go srv.ListenAndServeRaw("tcp", ":1")
	} else {
		go srv.ListenAndServe("tcp", ":1")
	}
	rt.Idle()
	l = rt.OpenListener("tcp", ":1")
	rt.Explore(1 + rt.Tier())
	c := l.Connect("p:1")
	if !raw {
		c.Send(cat(idFrame(78, nil), idFrame(1, nil)))
	}
	rt.Idle()
	rt.Explore(0)
	rt.Assert(ran == 1, "the message is handled")
	end := rt.Choose("end", 3)
	switch end {
	case 0:
		time.Sleep(301)
	case 1:
		c.SendEOF()
	case 2:
		rt.Assert(srv.Stop(true) == nil, "stopped")
	}
	rt.Idle()
	rt.Assert(c.IsClosed(), "the connection is closed")
	if !raw {
		rt.Assert(closes == 1, "one close callback")
	}
	if end == 0 {
		rt.Assert(lost == 1, "the loss is reported once")
		rt.Reach("lost")
	} else {
		rt.Assert(lost == 0, "no loss")
		rt.Reach("ended")
	}
}

// C01_maps: the same two header maps given to two packings one after the other, both, or either alone, in either order, through Pack and PackWithBody, with the same or different keys and any one-letter values: each frame carries exactly the entries it
// was given, later maps winning, and the maps are left alone.
func C01_maps() {
	quiet()
	v1, v2 := rt.Str("v1", 1), rt.Str("v2", 1)
	letters(v1)
	letters(v2)
	k2 := "l"
	if rt.Bool("samekey") {
		k2 = "k"
	}
	a := map[string]interface{}{"k": v1}
	b := map[string]interface{}{k2: v2}
	for i := 0; i < 2; i++ {
		var hs []map[string]interface{}
		want := map[string]interface{}{}
		switch rt.Choose("which", 4) {
		case 0:
			hs = append(hs, a, b)
			want["k"] = v1
			want[k2] = v2
		case 1:
			hs = append(hs, b, a)
			want[k2] = v2
			want["k"] = v1
		case 2:
			hs = append(hs, a)
			want["k"] = v1
		case 3:
			hs = append(hs, b, nil)
			want[k2] = v2
		}
		id := rt.I32("id")
		var p []byte
		var e error
		if rt.Bool("body") {
			p, e = tcpx.PackJSON.PackWithBody(id, []byte("x"), hs...)
		} else {
			p, e = tcpx.NewPackx(&recM{out: []byte("x")}).Pack(id, 1, hs...)
		}
		rt.Assert(e == nil, "packed")
		rt.AssertBytesEq(p, frame(id, jsonOf(want), []byte("x")), "exactly the given entries")
	}
	rt.Assert(len(a) == 1 && len(b) == 1, "the maps are left alone")
	rt.Reach("packed")
}

type typedBody struct{ A string }

// C01_typed: bodies that are no values but typed nils (pointer, map, slice, interface holding one), zero values and pointers to them, through every JSON packing entry: the frame carries the JSON of exactly that; only an untyped nil is no body.
func C01_typed() {
	quiet()
	var body interface{}
	want := []byte("null")
	switch rt.Choose("body", 8) {
	case 0:
		body = (*typedBody)(nil)
	case 1:
		body = map[string]string(nil)
	case 2:
		body = []int(nil)
	case 3:
		body, want = "", []byte(`""`)
	case 4:
		body, want = 0, []byte("0")
	case 5:
		body, want = false, []byte("false")
	case 6:
		body, want = &typedBody{}, []byte(`{"A":""}`)
	case 7:
		body, want = nil, nil
		rt.Reach("none")
	}
	id := rt.I32("id")
	var p []byte
	var e error
	h := []byte("{}")
	switch rt.Choose("entry", 4) {
	case 0:
		p, e = tcpx.PackJSON.Pack(id, body)
	case 1:
		p, e = tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Body: body}, "json")
		h = []byte("null")
	case 2:
		p, e = tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Body: body, Header: map[string]interface{}{}}, nil)
	case 3:
		c := rt.NewConn("p")
		e = tcpx.WriteJSON(c, id, body)
		h = []byte("null")
		rt.Assert(len(c.Written()) == 1, "one write")
		p = c.Written()[0]
	}
	rt.Assert(e == nil, "packed")
	rt.AssertBytesEq(p, frame(id, h, want), "the frame carries exactly that body")
	rt.Reach("packed")
}

type flaky2 struct {
	src
	at  int
	err error
}

func (f *flaky2) Read(p []byte) (int, error) {
	if f.at > 0 && len(p) >= f.at {
		n, _ := f.src.Read(p[:f.at])
		f.at -= n
		if f.at == 0 {
			return n, f.err
		}
		return n, nil
	}
	n, e := f.src.Read(p)
	f.at -= n
	return n, e
}

// C05_partial: a frame of any length of which some bytes, not the last, come together with an error of any kind, after which the stream would go on: an error and no block.
func C05_partial() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	f := cat(be32(uint32(n)), rt.Big("p", n))
	at := rt.Int("at", 1, sizeMax+4)
	rt.Assume(at < len(f) && at != 4)
	s := &flaky2{src: src{b: cat(f, f), endErr: errBroken}, at: at}
	kind := rt.Choose("kind", 5)
	switch kind {
	case 0:
		s.err = io.EOF
	case 1:
		s.err = errBroken
	case 2:
		s.err = rt.NetErr{}
	case 3:
		s.err = rt.NetErr{TO: true}
	case 4:
		s.err = rt.NetErr{Temp: true}
	}
	b, e := readBlock(rt.Choose("via", 6), s)
	rt.Assert(e != nil && len(b) == 0, "an incomplete frame is an error and no block")
	if kind != 0 {
		rt.Assert(e != io.EOF, "a failure is not reported as a clean end")
	}
	rt.Reach("failed")
}

// C06_batch: a batch of 2..5 messages and one after it, any one of them (with a body of any length up to 70000) possibly beyond the maximum (any up to 70000, above the others): those before a refused one are handled, it closes the connection
// without its payload being read, and nothing after it is handled.
func C06_batch() {
	quiet()
	max := rt.Int("max", 100, sizeMax)
	srv := tcpx.NewTcpX(nil)
	srv.SetMaxBytePerMessage(int32(max))
	var got []int32
	h := func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); got = append(got, id) }
	for i := 1; i <= 6; i++ {
		srv.AddHandler(int32(i), h)
	}
	n := 2 + rt.Choose("n", 4)
	at := rt.Choose("at", n+1)
	big := rt.Big("b", rt.Int("len", 0, sizeMax))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	refused := false
	want, consumed := 0, 0
	for i := 0; i <= n; i++ {
		hd := []byte("{}")
		if i == 0 {
			hd = pipedHeader(string([]byte{byte('0' + n)}))
		}
		var b []byte
		if i == at {
			b = big
		}
		f := frame(int32(i+1), hd, b)
		c.Send(f)
		if !refused {
			if len(f)-4 > max {
				refused = true
				consumed += 4
			} else {
				want++
				consumed += len(f)
			}
		}
	}
	rt.Idle()
	rt.Assert(len(got) == want, "exactly the messages before a refused one are handled")
	rt.Assert(c.Consumed <= consumed+readAhead, "the payload of a refused message is not read")
	rt.Assert(c.IsClosed() == refused, "a refused message closes the connection, others do not")
	if refused {
		rt.Reach("refused")
	} else {
		rt.Reach("accepted")
	}
}

// C07_wide: 0, 1, 9, 10, 11 or 20 global middlewares, as many anchor middlewares out of 0, 1 and 11 and own ones out of 0, 1, 10 and 17, a handler by ID or URL, a message callback or none (TCP, UDP): each runs once, in order.
func C07_wide() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	var want []int
	for i, n := 0, []int{0, 1, 9, 10, 11, 20}[rt.Choose("globals", 6)]; i < n; i++ {
		srv.UseGlobal(tr.mw(100 + i))
		want = append(want, 100+i)
	}
	for i, n := 0, []int{0, 1, 11}[rt.Choose("anchors", 3)]; i < n; i++ {
		srv.Use(string([]byte{'k', byte('a' + i)}), tr.mw(200+i))
		want = append(want, 200+i)
	}
	var hs []func(c *tcpx.Context)
	f := idFrame(1, nil)
	kind := rt.Choose("kind", 3)
	own := []int{0, 1, 10, 17}[rt.Choose("own", 4)]
	if kind == 2 {
		srv.OnMessage = tr.mw(1)
		want = append(want, 1)
	} else {
		for i := 0; i < own; i++ {
			hs = append(hs, tr.mw(300+i))
			want = append(want, 300+i)
		}
		hs = append(hs, tr.mw(1))
		want = append(want, 1)
		if kind == 1 {
			srv.Any("/u", hs...)
			f = uFrame("/u", nil)
		} else {
			srv.AddHandler(1, hs...)
		}
	}
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		rt.OpenPacket("udp", ":1").Deliver(f, "a:1")
	} else {
		up(srv).Connect("9.9.9.9:1").Send(f)
	}
	rt.Idle()
	rt.Assert(sameInts(tr.t, want), "each step runs once, in order")
	rt.Reach("done")
}

// C09_patterns: two URL patterns of which one is "/a" or "/a/b", and a message with any pattern of 0..5 printable bytes, or one of 9 that look alike, over TCP or UDP: only an equal pattern runs a handler.
func C09_patterns() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran := 0
	reg := []string{"/a", "/a/b", "/A"}
	for i := range reg {
		i := i
		srv.Any(reg[i], func(c *tcpx.Context) { ran += 1 + 10*i })
	}
	var u string
	if rt.Bool("alike") {
		u = []string{"/a/", "a", "//a", "/a ", " /a", "/a?x=1", "/a#", "/%61", "/a/b/", "/a/../a", "/a/B", "/", "*", "/a\\u0000"}[rt.Choose("look", 14)]
	} else {
		u = rt.Str("u", rt.Choose("len", 6))
		for i := 0; i < len(u); i++ {
			rt.Assume(u[i] >= ' ' && u[i] < 0x7f && u[i] != '"' && u[i] != '\\')
		}
	}
	f := frame(rt.I32("id"), []byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"`+u+`"}`), nil)
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		rt.OpenPacket("udp", ":1").Deliver(f, "a:1")
	} else {
		up(srv).Connect("9.9.9.9:1").Send(f)
	}
	rt.Idle()
	want := 0
	for i := range reg {
		if u == reg[i] {
			want = 1 + 10*i
			rt.Reach("equal")
		}
	}
	rt.Assert(ran == want, "exactly the handler of an equal pattern runs")
	rt.Reach("done")
}

// C09_kinds: a message whose routing kind is "URL_PATTERN" or "MESSAGE_ID" with any one byte replaced by any printable one, cut or extended by one byte, or in lower case: any but the two exact kinds runs no handler and leaves the connection open.
func C09_kinds() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran := 0
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	srv.Any("/a", func(c *tcpx.Context) { ran += 10 })
	kind := []string{"URL_PATTERN", "MESSAGE_ID"}[rt.Choose("kind", 2)]
	s := kind
	x := rt.Str("x", 1)
	rt.Assume(x[0] >= ' ' && x[0] < 0x7f && x[0] != '"' && x[0] != '\\')
	switch rt.Choose("how", 5) {
	case 0:
		i := rt.Choose("at", len(kind))
		s = kind[:i] + x + kind[i+1:]
	case 1:
		s = kind[:len(kind)-1]
	case 2:
		s = kind + x
	case 3:
		s = []string{"url_pattern", "message_id", "Url_Pattern", "Message_Id", "MESSAGEID", "URLPATTERN"}[rt.Choose("lower", 6)]
	case 4:
		s = x + kind
	}
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(frame(1, []byte(`{"Router-Type":"`+s+`","Router-Pattern-Value":"/a"}`), nil))
	rt.Idle()
	want := 0
	if s == "URL_PATTERN" {
		want = 10
		rt.Reach("url")
	} else if s == "MESSAGE_ID" {
		want = 1
		rt.Reach("id")
	}
	rt.Assert(ran == want, "an unknown routing kind runs no handler")
	rt.Assert(!c.IsClosed(), "the connection stays open")
	c.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(ran == want+1, "later messages are handled")
}

// C20_loop: IPv4 loopback hosts with any three digits, the unspecified addresses, IPv4-mapped loopback and hosts that contain or resemble the IPv6 loopback one, TCP and UDP: reported as they are; only [::1] is reported as 127.0.0.1.
func C20_loop() {
	quiet()
	d := rt.Str("d", 3)
	for i := 0; i < 3; i++ {
		rt.Assume(d[i] >= '0' && d[i] <= '9')
	}
	var host, shown string
	k := rt.Choose("kind", 13)
	switch k {
	case 0:
		host = "127." + d[0:1] + "." + d[1:2] + "." + d[2:3]
		shown = host
	case 1:
		host = "0.0.0.0"
		shown = host
	case 2:
		host = "localhost"
		shown = host
	case 12:
		host, shown = "", ""
	default:
		host = []string{"::1", "::", "::ffff:127.0.0.1", "::10", "::1:1", "1::1", "::1%lo", "fe80::1", "::2"}[k-3]
		shown = "[" + host + "]"
	}
	want := host
	if k == 3 {
		want = "127.0.0.1"
		rt.Reach("loopback")
	}
	ip := ipOf(rt.Bool("udp"), shown+":1"+d)
	rt.Assert(ip == want, "the client IP is the host part of the address")
	rt.Reach("host")
}

// C09_bigheader: a message routed by ID or URL whose header has 0..3, 65 or 300 further entries, one of which has any one-letter string value, and nested values: its handler runs once.
func C09_bigheader() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran := 0
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	srv.Any("/a", func(c *tcpx.Context) { ran += 10 })
	v := rt.Str("v", 1)
	letters(v)
	h := `{"z":{"Router-Type":"x","Router-Pattern-Value":["/b"]},"y":"` + v + `"`
	for i, n := 0, []int{0, 1, 2, 3, 65, 300}[rt.Choose("entries", 6)]; i < n; i++ {
		h += `,"k` + strconv.Itoa(i) + `":` + strconv.Itoa(i)
	}
	want := 1
	if rt.Bool("url") {
		h += `,"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a"`
		want = 10
	}
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(frame(1, []byte(h+"}"), nil))
	rt.Idle()
	rt.Assert(ran == want, "a message runs exactly its handler")
	rt.Assert(!c.IsClosed(), "the connection stays open")
	rt.Reach("done")
}

// C04_toml: a body that is `a={#` and 0..2 further bytes, any, of a message of any ID (the TOML library panics on those), decoded as TOML by UnpackWithMarshaller, by name, by a Packx, as a PackType or straight: an error, never a panic.
func C04_toml() {
	quiet()
	body := cat([]byte("a={#"), rt.Bytes("rest", rt.Choose("len", 3)))
	f := frame(rt.I32("id"), nil, body)
	var dest struct{ A string }
	var e error
	switch rt.Choose("via", 5) {
	case 0:
		_, e = tcpx.UnpackWithMarshaller(f, &dest, tcpx.TomlMarshaller{})
	case 1:
		_, e = tcpx.UnpackWithMarshallerName(f, &dest, "toml")
	case 2:
		_, e = tcpx.NewPackx(tcpx.TomlMarshaller{}).Unpack(f, &dest)
	case 3:
		pt := tcpx.PackType(f)
		e = pt.BindTOML(&dest)
	case 4:
		e = tcpx.UnmarshalTOML(body, &dest)
	}
	rt.Assert(e != nil, "malformed TOML is an error")
	rt.Reach("refused")
}

// C12_toml: a TOML server (or one whose handler binds with the TOML marshaller) gets a body on which the TOML library panics (`a={#` and 0..2 bytes, any) over TCP or UDP: the handler sees an error, nothing crashes, the connection stays and
// the next message is handled.
func C12_toml() {
	quiet()
	srv := tcpx.NewTcpX(tcpx.TomlMarshaller{})
	n, bad := 0, 0
	with := rt.Bool("with")
	srv.AddHandler(1, func(c *tcpx.Context) {
		var dest struct{ A string }
		var e error
		if with {
			_, e = c.BindWithMarshaller(&dest, tcpx.TomlMarshaller{})
		} else {
			_, e = c.Bind(&dest)
		}
		if e != nil {
			bad++
		}
	})
	srv.AddHandler(2, func(c *tcpx.Context) { n++ })
	f := idFrame(1, cat([]byte("a={#"), rt.Bytes("rest", rt.Choose("len", 3))))
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		p := rt.OpenPacket("udp", ":2")
		p.Deliver(f, "s:1")
		rt.Idle()
		p.Deliver(idFrame(2, nil), "s:1")
		rt.Idle()
		rt.Assert(bad == 1, "the handler sees an error")
		rt.Assert(n == 1 && !p.IsClosed(), "later datagrams are served")
		rt.Reach("udp")
		return
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(f)
	rt.Idle()
	c.Send(idFrame(2, nil))
	rt.Idle()
	rt.Assert(bad == 1, "the handler sees an error")
	rt.Assert(n == 1 && !c.IsClosed(), "the next message is handled")
	rt.Reach("tcp")
}

// C26_start: a stopped server of two endpoints (TCP and TCP, or TCP and UDP), and any 2 of Start, State, Stop and listening on a further address at the same time, up to 2 (thorough 3) preemptions: no data race, deadlock or panic; after a successful Start
// (without a Stop) every former endpoint serves, once, and so does the further one.
func C26_start() {
	quiet()
	w := &stopWorld{srv: tcpx.NewTcpX(nil), eps: setups[1+rt.Choose("setup", 2)]}
	w.begin()
	rt.Assert(w.srv.Stop(false) == nil, "stopped")
	rt.Idle()
	const n = 4
	ops := []int{rt.Choose("op0", n), rt.Choose("op1", n)}
	rt.Assume(ops[0] == 0 && ops[0] <= ops[1])
	has := make([]int, n)
	started := false
	var fs []func()
	for i := range ops {
		op := ops[i]
		has[op]++
		fs = append(fs, func() {
			switch op {
			case 0:
				if w.srv.Start() == nil {
					started = true
				}
			case 1:
				w.srv.State()
			case 2:
				w.srv.Stop(false)
			case 3:
				go w.srv.ListenAndServe("tcp", ":9")
			}
		})
	}
	rt.Races()
	rt.Explore(2 + rt.Tier())
	rt.Par(fs...)
	rt.Idle()
	rt.Explore(0)
	if has[2] == 0 {
		if has[3] == 0 {
			rt.Assert(started, "a stopped server starts")
		} else if !started {
			w.eps = []ep{{"s", "tcp", ":9"}}
		} else {
			w.eps = append([]ep{{"s", "tcp", ":9"}}, w.eps...)
		}
		w.listening(true, "every former endpoint is open, once")
		w.serves("every endpoint serves")
		rt.Assert(w.srv.Stop(false) == nil, "stopped again")
		rt.Idle()
		w.listening(false, "every endpoint is closed")
		rt.Reach("started")
	} else {
		rt.Reach("stopped")
	}
}

type namedBytes []byte
type namedStr string
type errBody struct{}

func (errBody) Error() string { return "e" }

// C01_kinds: bodies of 13 Go kinds (raw JSON, []byte, a named one, a received block, a string, a named one, an error, a number, a bool, a slice, a map, a struct, a Message), through every packing entry that takes a codec: the codec is called once, with
// that very value, and its output (any 3 bytes) is the body.
func C01_kinds() {
	quiet()
	bodies := []interface{}{[]byte("ab"), namedBytes("ab"), tcpx.PackType("ab"), "ab", namedStr("ab"), errBody{}, 7, true, []int{1}, map[string]int{"a": 1}, typedBody{A: "x"}, tcpx.Message{MessageID: 3}, json.RawMessage("ab")}
	k := rt.Choose("body", len(bodies))
	rec := &recM{out: rt.Bytes("out", 3)}
	id := rt.I32("id")
	var p []byte
	var e error
	h := []byte("{}")
	switch rt.Choose("entry", 6) {
	case 0:
		p, e = tcpx.NewPackx(rec).Pack(id, bodies[k])
	case 1:
		p, e = tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Body: bodies[k]}, rec)
		h = []byte("null")
	case 2:
		p, e = tcpx.Pack(id, map[string]interface{}{}, bodies[k], rec)
	case 3:
		p, e = tcpx.Message{MessageID: id, Body: bodies[k]}.Pack(rec)
		h = []byte("null")
	case 4:
		w := newReplyWorld(rt.Bool("udp"), rec)
		e = w.ctx.Reply(id, bodies[k])
		rt.Assert(len(w.out()) == 1, "one write")
		p = w.out()[0]
	case 5:
		w := newReplyWorld(rt.Bool("udp"), nil)
		e = w.ctx.ReplyWithMarshaller(rec, id, bodies[k])
		rt.Assert(len(w.out()) == 1, "one write")
		p = w.out()[0]
	}
	rt.Assert(e == nil, "packed")
	rt.Assert(rec.calls == 1, "the codec is called once")
	switch k {
	case 0:
		b, ok := rec.src.([]byte)
		rt.Assert(ok && string(b) == "ab", "with the value that was given")
	case 1:
		b, ok := rec.src.(namedBytes)
		rt.Assert(ok && string(b) == "ab", "with the value that was given")
	case 2:
		b, ok := rec.src.(tcpx.PackType)
		rt.Assert(ok && string(b) == "ab", "with the value that was given")
	case 3, 4, 5, 6, 7, 10:
		rt.Assert(rec.src == bodies[k], "with the value that was given")
	case 8:
		b, ok := rec.src.([]int)
		rt.Assert(ok && len(b) == 1, "with the value that was given")
	case 9:
		b, ok := rec.src.(map[string]int)
		rt.Assert(ok && b["a"] == 1, "with the value that was given")
	case 11:
		b, ok := rec.src.(tcpx.Message)
		rt.Assert(ok && b.MessageID == 3, "with the value that was given")
	case 12:
		b, ok := rec.src.(json.RawMessage)
		rt.Assert(ok && string(b) == "ab", "with the value that was given")
	}
	rt.AssertBytesEq(p, frame(id, h, rec.out), "its output is the body")
	rt.Reach("packed")
}

// C17_mixed: two replies by any two of the 8 reply functions on one context of any of the 6 configured codecs (TCP, UDP): the second is encoded by the codec its function names, whatever the first one used.
func C17_mixed() {
	quiet()
	rec := &recM{out: []byte("zz")}
	own := rt.Choose("codec", 6)
	w := newReplyWorld(rt.Bool("udp"), ctxCodec(own, rec))
	other := newReplyWorld(false, tcpx.JsonMarshaller{})
	v := xbody{Name: "n", N: 3}
	pb := &wrapperspb.StringValue{Value: "n"}
	fns := []int{rt.Choose("first", 8), rt.Choose("second", 8)}
	for i, fn := range fns {
		used := fn
		if fn >= 6 {
			used = own
		}
		bytes, body := wantBody(used, v, pb, rec)
		rt.Assert(reply(fn, w, other, rec, int32(i), body, nil) == nil, "a reply that can be encoded succeeds")
		out := w.out()
		rt.Assert(len(out) == i+1, "each reply is one write")
		rt.AssertBytesEq(out[i], frame(int32(i), []byte("{}"), bytes), "each is encoded by the codec its function names")
	}
	rt.Reach("replied")
}

// C26_replies: two messages of one connection, or of two (TCP, UDP), whose handlers reply by codecs of their own (JSON, or an explicit one) and by the configured one, at the same time, up to 1 (thorough 2) preemptions: no data race, every reply in
// its own codec.
func C26_replies() {
	quiet()
	rec := &recM{out: []byte("own")}
	srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	if rt.Bool("configured") {
		srv = tcpx.NewTcpX(tcpx.YamlMarshaller{})
	}
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(11, "j") })
	srv.AddHandler(2, func(c *tcpx.Context) { c.ReplyWithMarshaller(rec, 12, "o") })
	ids := []int32{1, int32(1 + rt.Choose("other", 2))}
	udp := rt.Bool("udp")
	var l *rt.FListener
	var p *rt.FPacketConn
	var cs []*rt.FConn
	if udp {
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		p = rt.OpenPacket("udp", ":1")
	} else {
		l = up(srv)
		c := l.Connect("p:1")
		cs = []*rt.FConn{c, c}
		if rt.Bool("two") {
			cs[1] = l.Connect("p:2")
		}
		rt.Idle()
	}
	send := func(i int) {
		if udp {
			p.Deliver(idFrame(ids[i], nil), []string{"a:1", "b:1"}[i])
		} else {
			cs[i].Send(idFrame(ids[i], nil))
		}
	}
	rt.Races()
	rt.Explore(1 + rt.Tier())
	rt.Par(func() { send(0) }, func() { send(1) })
	rt.Idle()
	rt.Explore(0)
	var out [][]byte
	if udp {
		for _, d := range p.Written() {
			out = append(out, d.B)
		}
	} else {
		out = append(out, cs[0].Written()...)
		if cs[1] != cs[0] {
			out = append(out, cs[1].Written()...)
		}
	}
	rt.Assert(len(out) == 2, "both are answered")
	for _, b := range out {
		id, _ := tcpx.MessageIDOf(b)
		want := frame(11, []byte("{}"), []byte(`"j"`))
		if id == 12 {
			want = frame(12, []byte("{}"), []byte("own"))
		}
		rt.AssertBytesEq(b, want, "every reply is in its own codec")
	}
	rt.Reach("replied")
}

// C14_both: an auth handler (or two auth messages) that gives two results, pass or deny each, any deadline: the first decides, at once and for good; the later one neither closes a passed connection nor blocks its handler.
func C14_both() {
	quiet()
	d := time.Duration(rt.Int("deadline", 10, 1000))
	srv := tcpx.NewTcpX(nil)
	first, second := rt.Bool("first"), rt.Bool("second")
	ran := 0
	give := func(c *tcpx.Context, pass bool) {
		if pass {
			c.RecvAuthPass()
		} else {
			c.RecvAuthDeny()
		}
	}
	together := rt.Bool("together")
	srv.WithAuthDetail(true, d, false, 7, func(c *tcpx.Context) {
		if together {
			give(c, first)
			give(c, second)
		} else if ran == 0 {
			give(c, first)
		} else {
			give(c, second)
		}
		ran++
	})
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(idFrame(7, nil))
	rt.Idle()
	rt.Assert(ran == 1, "the handler is not blocked")
	rt.Assert(c.IsClosed() == !first, "the first result decides at once")
	if first {
		if !together {
			c.Send(idFrame(7, nil))
			rt.Idle()
			rt.Assert(ran == 2, "the handler is not blocked")
		}
		time.Sleep(2*d + 5)
		rt.Idle()
		rt.Assert(!c.IsClosed(), "one that passed is never closed by the auth mechanism")
		rt.Reach("passed")
	} else {
		rt.Reach("denied")
	}
}

// C09_special: heartbeat on with any ID, auth too or not (through middlewares or not), a URL handler or none beside them, and a message of any ID routed by URL (registered or not) or by ID, TCP and UDP: a URL message runs the URL
// handler whatever its ID, an ID message the handler of its ID, and others none.
func C09_special() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	hb, au := rt.I32("heartbeat"), rt.I32("auth")
	rt.Assume(hb != au)
	got := 0
	srv.HeartBeatModeDetail(true, time.Hour, rt.Bool("through"), hb)
	if rt.Bool("rewritten") {
		srv.RewriteHeartBeatHandler(hb, func(c *tcpx.Context) { got += 10 })
	} else {
		rt.Reach("built-in")
	}
	auth, url := rt.Bool("auth on"), rt.Bool("url registered")
	if auth {
		srv.WithAuthDetail(true, time.Hour, rt.Bool("auth through"), au, func(c *tcpx.Context) { got += 100 })
	}
	if url {
		srv.Any("/u", func(c *tcpx.Context) { got += 1000 })
	}
	id := rt.I32("id")
	kind := rt.Choose("kind", 3)
	want := 0
	var f []byte
	switch kind {
	case 0:
		f = idFrame(id, nil)
		rt.Assume(id != hb)
		if auth && id == au {
			want = 100
		}
	case 1:
		f = frame(id, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: "/u"}), nil)
		if url {
			want = 1000
		}
	case 2:
		f = frame(id, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: "/v"}), nil)
	}
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		rt.OpenPacket("udp", ":2").Deliver(f, "s:1")
	} else {
		up(srv).Connect("9.9.9.9:1").Send(f)
	}
	rt.Idle()
	rt.Assert(got == want, "exactly the handler of the message's own ID or URL pattern runs")
	rt.Reach("routed")
}

// C02_zero: JSON bodies that are the empty or zero value of their type (a slice, a map, a string, a number, a bool, a struct), with any message ID, unpacked into a destination of that type: the message's body is
// that value, of that type.
func C02_zero() {
	quiet()
	id := rt.I32("id")
	k := rt.Choose("kind", 6)
	bodies := []interface{}{[]int{}, map[string]int{}, "", 0, false, typedBody{}}
	p, e := tcpx.PackJSON.Pack(id, bodies[k])
	rt.Assert(e == nil, "packed")
	var d0 []int
	var d1 map[string]int
	var d2 string
	var d3 int
	var d4 bool
	var d5 typedBody
	dest := []interface{}{&d0, &d1, &d2, &d3, &d4, &d5}[k]
	var m tcpx.Message
	switch rt.Choose("via", 4) {
	case 0:
		m, e = tcpx.UnpackWithMarshaller(p, dest, tcpx.JsonMarshaller{})
	case 1:
		m, e = tcpx.PackJSON.Unpack(p, dest)
	case 2:
		m, e = tcpx.UnpackWithMarshallerName(p, dest, "json")
	case 3:
		ctx := tcpx.NewTCPContext(rt.NewConn("p"), tcpx.JsonMarshaller{})
		ctx.Stream = p
		m, e = ctx.Bind(dest)
	}
	rt.Assert(e == nil, "unpacked")
	rt.Assert(m.MessageID == id, "the message ID is the packed one")
	switch k {
	case 0:
		b, ok := m.Body.([]int)
		rt.Assert(ok && len(b) == 0 && d0 != nil && len(d0) == 0, "the body is the packed one")
	case 1:
		b, ok := m.Body.(map[string]int)
		rt.Assert(ok && len(b) == 0 && d1 != nil && len(d1) == 0, "the body is the packed one")
	default:
		rt.Assert(m.Body == bodies[k], "the body is the packed one")
	}
	rt.Reach("unpacked")
}

// C11_bodies: PipeJSON of three messages of which the one at an arbitrary position has a body of any of 7 kinds (nil, a string, empty values, a struct, a slice), any message IDs: exactly three frames, each with its ID, sent in
// one write and handled in order by a server.
func C11_bodies() {
	quiet()
	bodies := []interface{}{nil, "s", "", 0, []int{}, typedBody{A: "x"}, map[string]int{}}
	k := rt.Choose("kind", len(bodies))
	pos := rt.Choose("pos", 3)
	var args []interface{}
	ids := make([]int32, 3)
	for i := 0; i < 3; i++ {
		ids[i] = rt.I32("id")
		var b interface{} = "b"
		if i == pos {
			b = bodies[k]
		}
		args = append(args, int(ids[i]), b)
	}
	w := rt.NewConn("server")
	rt.Assert(tcpx.PipeJSON(w, args...) == nil, "the batch is sent")
	rest := []byte{}
	for _, b := range w.Written() {
		rest = append(rest, b...)
	}
	all := rest
	for i := 0; i < 3; i++ {
		f, e := tcpx.FirstBlockOfBytes(rest)
		rt.Assert(e == nil, "the batch consists of frames")
		id, _ := tcpx.MessageIDOf(f)
		rt.Assert(id == ids[i], "the message IDs are the given ones, in order")
		if i != pos {
			b, _ := tcpx.BodyBytesOf(f)
			rt.Assert(string(b) == `"b"`, "the bodies are the given ones, in order")
		}
		rest = rest[len(f):]
	}
	rt.Assert(len(rest) == 0, "nothing follows the frames")
	srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	var got []int32
	srv.OnMessage = func(c *tcpx.Context) {
		m, _ := tcpx.MessageIDOf(c.Stream)
		got = append(got, m)
	}
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(all)
	rt.Idle()
	rt.Assert(len(got) == 3, "every message of the batch is handled")
	for i := range got {
		rt.Assert(got[i] == ids[i], "in order")
	}
	rt.Reach("handled")
}

// C27_widths: two registrations of URL patterns of any two strings (2 bytes, possibly equal) or of any two message IDs, each with one to three handlers: the second is refused exactly when the route is the same, however many
// handlers either has, and the first route runs its own handlers.
func C27_widths() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	hs := func(base, n int) []func(*tcpx.Context) {
		all := []func(*tcpx.Context){tr.mw(base), tr.mw(base + 1), tr.mw(base + 2)}
		return all[:n]
	}
	n1, n2 := 1+rt.Choose("n1", 3), 1+rt.Choose("n2", 3)
	id1, id2 := rt.I32("id1"), rt.I32("id2")
	u1, u2 := "/"+rt.Str("u1", 1), "/"+rt.Str("u2", 1)
	rt.Assume(u1[1] > ' ' && u1[1] < 0x7f && u1[1] != '"' && u1[1] != '\\' && u1[1] != '<' && u1[1] != '>' && u1[1] != '&')
	byURL := rt.Bool("url")
	same := false
	var p bool
	if byURL {
		same = u1 == u2
		rt.Assert(!panics(func() { srv.Any(u1, hs(1, n1)...) }), "a first registration succeeds")
		p = panics(func() { srv.Any(u2, hs(11, n2)...) })
	} else {
		same = id1 == id2
		rt.Assert(!panics(func() { srv.AddHandler(id1, hs(1, n1)...) }), "a first registration succeeds")
		p = panics(func() { srv.AddHandler(id2, hs(11, n2)...) })
	}
	rt.Assert(p == same, "a second registration is refused exactly when the route is the same")
	c := up(srv).Connect("9.9.9.9:1")
	if byURL {
		c.Send(urlFrame(0, u1, nil))
	} else {
		c.Send(idFrame(id1, nil))
	}
	rt.Idle()
	want := []int{1, 2, 3}[:n1]
	rt.Assert(sameInts(tr.t, want), "the route runs what was registered for it")
	if same {
		rt.Reach("refused")
	} else {
		rt.Reach("accepted")
	}
}

// C08_long: a chain of 140 steps (global, anchor and own middlewares and the handler) of which one at any of 7 positions aborts, calls Next, or does neither: the steps up to an abort run and no other; otherwise all run
// once, in order; and the next message on the connection runs its own chain in full.
func C08_long() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	pos := []int{0, 29, 62, 63, 64, 127, 138}[rt.Choose("pos", 7)]
	act := rt.Choose("act", 3)
	first := true
	var ran []int
	after := 0
	step := func(i int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			ran = append(ran, i)
			if first && i == pos {
				switch act {
				case 1:
					c.Abort()
				case 2:
					c.Next()
					after = len(ran)
				}
			}
		}
	}
	for i := 0; i < 30; i++ {
		srv.UseGlobal(step(i))
	}
	for i := 30; i < 70; i++ {
		srv.Use(strconv.Itoa(i), step(i))
	}
	var own []func(c *tcpx.Context)
	for i := 70; i < 140; i++ {
		own = append(own, step(i))
	}
	srv.AddHandler(1, own...)
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(idFrame(1, nil))
	rt.Idle()
	want := 140
	if act == 1 {
		want = pos + 1
	}
	rt.Assert(len(ran) == want, "an abort stops the rest, otherwise every step runs once")
	for i := range ran {
		rt.Assert(ran[i] == i, "in order")
	}
	if act == 2 {
		rt.Assert(after == 140, "Next runs the rest before it returns")
	}
	first = false
	ran = nil
	c.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(len(ran) == 140, "the next message runs all of its steps")
	rt.Reach("ran")
}

// C11_url: a batch of 3 messages of which any are routed by URL pattern and the others by ID, the first one (which announces it) included, the first handler taking a while: each is handled by its own route, strictly one after another, in order.
func C11_url() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var ran []int
	running, overlap := 0, 0
	gate := make(chan int)
	h := func(c *tcpx.Context) {
		running++
		if running > 1 {
			overlap++
		}
		b, _ := tcpx.BodyBytesOf(c.Stream)
		ran = append(ran, int(b[0]))
		if len(ran) == 1 {
			<-gate
		}
		running--
	}
	byURL := []bool{rt.Bool("url0"), rt.Bool("url1"), rt.Bool("url2")}
	var f []byte
	for i := 0; i < 3; i++ {
		i := i
		mine := func(c *tcpx.Context) {
			b, _ := tcpx.BodyBytesOf(c.Stream)
			rt.Assert(int(b[0]) == i, "each message runs the handler of its own route")
			h(c)
		}
		hd := map[string]interface{}{}
		if i == 0 {
			hd[pipedKey] = "enable;3"
		}
		if byURL[i] {
			u := "/" + strconv.Itoa(i)
			srv.Any(u, mine)
			hd[tcpx.HEADER_ROUTER_KEY] = tcpx.URLPATTERN
			hd[tcpx.HEADER_ROUTER_VALUE] = u
		} else {
			srv.AddHandler(int32(i), mine)
		}
		f = append(f, frame(int32(i), jsonOf(hd), []byte{byte(i)})...)
	}
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(f)
	rt.Idle()
	rt.Assert(len(ran) == 1, "the batch is processed one after another")
	close(gate)
	rt.Idle()
	rt.Assert(overlap == 0 && sameInts(ran, []int{0, 1, 2}), "every message of the batch is handled, in order")
	rt.Reach("batch")
}
