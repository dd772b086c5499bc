package zzvh

import (
	"io"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

// headerOf is one of the headers that are easily taken for one another.
func headerOf(k int) map[string]interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	case 2:
		return map[string]interface{}{"k": "1"}
	case 3:
		return map[string]interface{}{"k": 1}
	case 4:
		return map[string]interface{}{"k": true}
	case 5:
		return map[string]interface{}{"k": "true"}
	case 6:
		return map[string]interface{}{"k": nil}
	case 7:
		return map[string]interface{}{"k": "<nil>"}
	}
	return map[string]interface{}{"l": "1", "k": "1"}
}

// C01_twice: two messages packed one after the other through any of 5 entry points, each with one of 9 headers (absent, empty, values that print alike but differ in type, two keys), any IDs, any codec outputs of up to 2 bytes: each is exactly its own frame, the first stays as it
// was, and the given header maps are left alone.
func C01_twice() {
	quiet()
	pack := func(k int, id int32, h map[string]interface{}, out []byte) []byte {
		var p []byte
		var e error
		if k == 4 {
			p, e = tcpx.NewPackx(nil).PackWithBody(id, out, h, map[string]interface{}{})
		} else {
			p, e = packVia(k, id, h, "payload", &recM{out: out})
		}
		rt.Assert(e == nil, "packing an encodable message succeeds")
		return p
	}
	k1, k2 := rt.Choose("entry1", 5), rt.Choose("entry2", 5)
	x1, x2 := rt.Choose("header1", 9), rt.Choose("header2", 9)
	i1, i2 := rt.I32("id1"), rt.I32("id2")
	o1, o2 := rt.Bytes("o1", 2), rt.Bytes("o2", 1)
	h1, h2 := headerOf(x1), headerOf(x2)
	want := func(k, x int, id int32, out []byte) []byte {
		h := headerOf(x)
		if h == nil && (k == 0 || k == 4) {
			h = map[string]interface{}{}
		}
		return frame(id, jsonOf(h), out)
	}
	p1 := pack(k1, i1, h1, o1)
	rt.AssertBytesEq(p1, want(k1, x1, i1, o1), "the first message is its own frame")
	p2 := pack(k2, i2, h2, o2)
	rt.AssertBytesEq(p2, want(k2, x2, i2, o2), "the second message is its own frame")
	rt.AssertBytesEq(p1, want(k1, x1, i1, o1), "the first frame stays as it was")
	rt.AssertBytesEq(jsonOf(h1), jsonOf(headerOf(x1)), "the given header is left alone")
	rt.AssertBytesEq(jsonOf(h2), jsonOf(headerOf(x2)), "the given header is left alone")
	rt.Reach("packed")
}

// C02_twice: two frames with one of 9 headers and a JSON string body (any 2 letters) each, any IDs, unpacked one after the other (into different values or the same one) through the plain function, a packer, a block or a context: each message has its own ID, header and body, and
// the first message's header is not changed by the second.
func C02_twice() {
	quiet()
	s1, s2 := rt.Str("s1", 2), rt.Str("s2", 2)
	letters(s1)
	letters(s2)
	x1, x2 := rt.Choose("header1", 9), rt.Choose("header2", 9)
	i1, i2 := rt.I32("id1"), rt.I32("id2")
	via := rt.Choose("via", 4)
	unpack := func(f []byte, dest *string) tcpx.Message {
		var m tcpx.Message
		var e error
		switch via {
		case 0:
			m, e = tcpx.UnpackWithMarshaller(f, dest, nil)
		case 1:
			m, e = tcpx.PackJSON.Unpack(f, dest)
		case 2:
			m, e = tcpx.UnpackWithMarshallerName(f, dest, "json")
		case 3:
			c := tcpx.NewContext(rt.NewConn("p"), nil)
			c.Stream = f
			m, e = c.Bind(dest)
		}
		rt.Assert(e == nil, "unpacking a frame succeeds")
		return m
	}
	var d1, d2 string
	p2 := &d2
	if rt.Bool("same") {
		p2 = &d1
	}
	m1 := unpack(frame(i1, jsonOf(headerOf(x1)), jsonOf(s1)), &d1)
	rt.Assert(m1.MessageID == i1 && d1 == s1 && m1.Body == s1, "the first message is what was packed")
	m2 := unpack(frame(i2, jsonOf(headerOf(x2)), jsonOf(s2)), p2)
	rt.Assert(m2.MessageID == i2 && *p2 == s2 && m2.Body == s2, "the second message is what was packed")
	rt.AssertBytesEq(jsonOf(m2.Header), jsonOf(headerOf(x2)), "the second message has its own header")
	rt.AssertBytesEq(jsonOf(m1.Header), jsonOf(headerOf(x1)), "the first message keeps its header")
	rt.Assert(m1.MessageID == i1 && m1.Body == s1, "the first message keeps its ID and body")
	rt.Reach("unpacked")
}

// C03_input: any slice of 16..70000 bytes with any content, in a buffer that goes on after it: no accessor (nor unpacking, with an empty or missing header) changes a byte of the buffer, nor returns the same bytes differently a second time.
func C03_input() {
	quiet()
	n := rt.Int("n", 16, sizeMax)
	b := rt.Big("b", n)
	tail := rt.Bytes("tail", 4)
	buf := cat(b, tail)
	s := buf[:n]
	op := rt.Choose("op", 4)
	call := func() ([]byte, error) {
		switch op {
		case 0:
			return tcpx.HeaderBytesOf(s)
		case 1:
			return tcpx.BodyBytesOf(s)
		case 2:
			return tcpx.FirstBlockOfBytes(s)
		}
		tcpx.LengthOf(s)
		tcpx.MessageIDOf(s)
		tcpx.HeaderLengthOf(s)
		_, e := tcpx.BodyLengthOf(s)
		return nil, e
	}
	v1, e1 := call()
	rt.AssertBytesEq(buf, cat(b, tail), "reading a frame does not change it")
	v2, e2 := call()
	rt.Assert((e1 == nil) == (e2 == nil), "reading again gives the same")
	rt.AssertBytesEq(v1, v2, "reading again gives the same")
	rt.AssertBytesEq(buf, cat(b, tail), "reading a frame does not change it")
	rt.Reach("read")
}

// C04_input: any 16..20 bytes in a buffer that goes on after it, unpacked with a codec that accepts: the buffer is unchanged.
func C04_input() {
	quiet()
	n := 16 + rt.Choose("n", 5)
	b := rt.Bytes("b", n)
	tail := rt.Bytes("tail", 4)
	buf := cat(b, tail)
	m := &recM{}
	var d int
	_, e := tcpx.UnpackWithMarshaller(buf[:n], &d, m)
	rt.AssertBytesEq(buf, cat(b, tail), "unpacking a frame does not change it")
	if e == nil {
		rt.Reach("unpacked")
	}
}

// C05_interleaved: two streams with a frame of any length 0..70000 and one of 3 bytes; while any of the first three reads of the first stream (the first two taking any number of bytes) is under way, the second stream is read: both frames are read unchanged.
func C05_interleaved() {
	quiet()
	f1 := func() []byte { n := rt.Int("n1", 0, sizeMax); return cat(be32(uint32(n)), rt.Big("p1", n)) }()
	f2 := cat(be32(3), rt.Bytes("p2", 3))
	k := rt.Choose("via", 2)*3 + rt.Choose("fn", 2)
	other := &src{b: f2, endErr: io.EOF}
	var b2 []byte
	var e2 error
	at := 1 + rt.Choose("at", 3)
	i := 0
	done := false
	s := &src{b: f1, endErr: io.EOF}
	s.readN = func(want, avail int) int {
		i++
		n := want
		if i < 3 {
			n = rt.Int("chunk", 0, want)
		}
		if i == at {
			done = true
			b2, e2 = readBlock(k, other)
		}
		return n
	}
	b1, e := readBlock(k, s)
	rt.Assert(e == nil, "the first stream's frame is read")
	rt.AssertBytesEq(b1, f1, "it is the frame that was sent")
	if done {
		rt.Assert(e2 == nil, "the second stream's frame is read")
		rt.AssertBytesEq(b2, f2, "it is the frame that was sent")
		rt.Reach("interleaved")
	}
}

// C07_later: registrations on a running server that has handled messages already: a further global middleware, a key taken out of use, another key put in use, a handler by ID and one by URL with own middlewares, in this order with any of them left out; after each step
// the old and the new handlers run exactly their chains.
func C07_later() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	srv.UseGlobal(tr.mw(1))
	srv.Use("a", tr.mw(2))
	srv.AddHandler(1, tr.mw(11))
	srv.Any("/1", tr.mw(3), tr.mw(12))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	globals := []int{1}
	used := []int{2}
	type route struct {
		f    []byte
		rest []int
	}
	url := func(u string) []byte {
		return frame(0, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: u}), nil)
	}
	routes := []route{{idFrame(1, nil), []int{2, 11}}, {url("/1"), []int{2, 3, 12}}}
	check := func() {
		for _, r := range routes {
			tr.t = nil
			c.Send(r.f)
			rt.Idle()
			want := append(append([]int{}, globals...), r.rest...)
			rt.Assert(sameInts(tr.t, want), "each message runs the chain of its registration")
		}
	}
	check()
	for step := 0; step < 5; step++ {
		if rt.Bool("skip") {
			continue
		}
		switch step {
		case 0:
			srv.UseGlobal(tr.mw(4))
			globals = append(globals, 4)
		case 1:
			srv.UnUse("a")
			used = nil
		case 2:
			srv.Use("b", tr.mw(5))
			used = append(used, 5)
		case 3:
			srv.AddHandler(2, tr.mw(6), tr.mw(13))
			routes = append(routes, route{idFrame(2, nil), append(append([]int{}, used...), 6, 13)})
		case 4:
			srv.Any("/2", tr.mw(14))
			routes = append(routes, route{url("/2"), append(append([]int{}, used...), 14)})
		}
		check()
		rt.Reach("later")
	}
}

// C10_reconnect: a client stores connection values, a user name and request values, passes authentication, and ends (or not); then a connection from the same address, or another one, arrives: it finds no value, no name and no pass of the former one.
func C10_reconnect() {
	quiet()
	d := time.Duration(rt.Int("deadline", 10, 1000))
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	srv.WithAuthDetail(true, d, false, 7, func(c *tcpx.Context) { c.RecvAuthPass() })
	k, v := rt.Str("k", 1), rt.Str("v", 1)
	ran := 0
	srv.AddHandler(1, func(c *tcpx.Context) {
		c.SetCtxPerConn(k, v)
		c.SetCtxPerRequest(k, v)
		rt.Assert(c.Online("bob") == nil, "online")
		ran++
	})
	srv.AddHandler(2, func(c *tcpx.Context) {
		_, a := c.GetCtxPerConn(k)
		_, b := c.GetCtxPerRequest(k)
		_, n := c.Username()
		rt.Assert(!a && !b && !n && c.GetUsername() == "", "a new connection has no values and no user name")
		rt.Assert(c.IsOnline(), "a new connection is online")
		ran++
	})
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(idFrame(7, nil))
	rt.Idle()
	c.Send(idFrame(1, nil))
	rt.Idle()
	end := rt.Bool("end")
	if end {
		c.SendEOF()
		rt.Idle()
	}
	addr := "9.9.9.9:1"
	if rt.Bool("other") {
		addr = "9.9.9.8:1"
	}
	n := l.Connect(addr)
	n.Send(idFrame(2, nil))
	rt.Idle()
	rt.Assert(ran == 2, "both are served")
	time.Sleep(d + 1)
	rt.Idle()
	rt.Assert(n.IsClosed(), "a new connection has to authenticate itself")
	rt.Assert(c.IsClosed() == end, "the former connection keeps its own state")
	rt.Reach("again")
}

// C13_flood: 1..4 heartbeats arriving at once after any time of less than three intervals (any, up to 1000 ticks), on one of two connections: the connection is dropped three intervals after them, not later and not before.
func C13_flood() {
	quiet()
	d := time.Duration(rt.Int("interval", 2, 1000))
	srv := tcpx.NewTcpX(nil)
	srv.HeartBeatMode(true, d)
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	g := time.Duration(rt.Int("gap", 0, 3000))
	rt.Assume(g < 3*d && g != d && g != 2*d)
	time.Sleep(g)
	rt.Idle()
	n := 1 + rt.Choose("beats", 4)
	for i := 0; i < n; i++ {
		c.Send(idFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, nil))
	}
	rt.Idle()
	time.Sleep(3*d - 1)
	rt.Idle()
	rt.Assert(!c.IsClosed(), "not before three intervals of silence")
	time.Sleep(2)
	rt.Idle()
	rt.Assert(c.IsClosed(), "after three intervals of silence")
	rt.Reach("dropped")
}

// C15_tagged: every sequence of 4 (thorough 5) events of a connection out of going online under one of two names, being given one of two user names without going online, offline and close, while another connection is online under the second name or not: names lead to the latest live
// connection, the user name is the last one given.
func C15_tagged() {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	var ctxs []*tcpx.Context
	srv.OnConnect = func(c *tcpx.Context) { ctxs = append(ctxs, c) }
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	o := l.Connect("9.9.9.9:2")
	rt.Idle()
	x, y := ctxs[0], ctxs[1]
	names := []string{"n", "m"}
	owner := []*tcpx.Context{nil, nil}
	if rt.Bool("other") {
		rt.Assert(y.Online("m") == nil, "online")
		owner[1] = y
	}
	name := ""
	closed := false
	leave := func() {
		for i := range owner {
			if owner[i] == x {
				owner[i] = nil
			}
		}
	}
	for i := 0; i < 4+rt.Tier(); i++ {
		op := rt.Choose("op", 6)
		rt.Assume(!closed)
		switch op {
		case 0, 1:
			rt.Assert(x.Online(names[op]) == nil, "online")
			leave()
			owner[op] = x
			name = names[op]
		case 2, 3:
			x.SetUsername(names[op-2])
			name = names[op-2]
		case 4:
			rt.Assert((x.Offline() == nil) == (name != ""), "offline")
			leave()
		case 5:
			x.CloseConn()
			rt.Idle()
			leave()
			closed = true
		}
		rt.Assert(x.GetUsername() == name, "the user name is the last one given")
		for j := range owner {
			rt.Assert(x.GetPoolRef().GetClientPool(names[j]) == owner[j], "a name leads to its latest live connection")
		}
	}
	_, _ = c, o
	rt.Reach("done")
}

// C15_names: two connections online under two different names (any of 1..3 bytes, or 40 bytes with an arbitrary last one): each name finds its own, sends reach its own, and one going offline leaves the other.
func C15_names() {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	var ctxs []*tcpx.Context
	srv.OnConnect = func(c *tcpx.Context) { ctxs = append(ctxs, c) }
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	o := l.Connect("9.9.9.9:2")
	rt.Idle()
	long := "0123456789012345678901234567890123456789"
	mk := func(s string) string {
		switch n := rt.Choose(s+"len", 4); n {
		case 3:
			return long + rt.Str(s, 1)
		default:
			return rt.Str(s, 1+n)
		}
	}
	a, b := mk("a"), mk("b")
	rt.Assume(a != b)
	rt.Assert(ctxs[0].Online(a) == nil && ctxs[1].Online(b) == nil, "online")
	p := ctxs[0].GetPoolRef()
	rt.Assert(p.GetClientPool(a) == ctxs[0] && p.GetClientPool(b) == ctxs[1], "each name finds its own connection")
	rt.Assert(ctxs[0].GetUsername() == a && ctxs[1].GetUsername() == b, "each connection has its name")
	rt.Assert(ctxs[1].SendToUsername(a, 5, nil) == nil, "sent")
	rt.Assert(len(c.Written()) == 1 && len(o.Written()) == 0, "to its own connection")
	rt.Assert(ctxs[0].SendToUsername(b, 5, nil) == nil, "sent")
	rt.Assert(len(c.Written()) == 1 && len(o.Written()) == 1, "to its own connection")
	rt.Assert(ctxs[0].Offline() == nil, "offline")
	rt.Assert(p.GetClientPool(a) == nil && p.GetClientPool(b) == ctxs[1], "the other one stays")
	rt.Reach("named")
}

// C16_many: a server with 12 stream listeners, stopped and started again twice: all closed, all open again, all served.
func C16_many() {
	quiet()
	w := &stopWorld{srv: tcpx.NewTcpX(nil)}
	for _, a := range []string{":1", ":2", ":3", ":4", ":5", ":6", ":7", ":8", ":9", ":10", ":11", ":12"} {
		w.eps = append(w.eps, ep{"s", "tcp", a})
	}
	w.begin()
	for i := 0; i < 2; i++ {
		w.listening(true, "every listener is open")
		w.serves("a running server serves")
		rt.Assert(w.srv.Stop(rt.Bool("all")) == nil, "stop")
		rt.Idle()
		w.listening(false, "stop closes every listener")
		rt.Assert(w.srv.Start() == nil, "start")
		rt.Idle()
	}
	w.listening(true, "every listener is open again, once")
	w.serves("a restarted server serves")
	rt.Reach("again")
}

// C17_maps: two replies by any of 7 functions (TCP, UDP) given the same header maps, both in the first and one in the second: each reply carries exactly the entries it was given, and the maps are left alone.
func C17_maps() {
	quiet()
	w := newReplyWorld(rt.Bool("udp"), tcpx.JsonMarshaller{})
	other := newReplyWorld(false, tcpx.JsonMarshaller{})
	fns := []int{0, 1, 3, 4, 5, 6, 7}
	f1, f2 := fns[rt.Choose("f1", 7)], fns[rt.Choose("f2", 7)]
	v := rt.Str("v", 1)
	letters(v)
	a := map[string]interface{}{"a": v, "x": "1"}
	b := map[string]interface{}{"b": v, "x": "2"}
	rec := &recM{out: []byte("z")}
	body := xbody{Name: "n", N: 1}
	e := reply(f1, w, other, rec, 1, body, []map[string]interface{}{a, b})
	rt.Assert(e == nil, "the first reply is sent")
	second := a
	if rt.Bool("second") {
		second = b
	}
	e = reply(f2, w, other, rec, 2, body, []map[string]interface{}{second})
	rt.Assert(e == nil, "the second reply is sent")
	rt.AssertBytesEq(jsonOf(a), jsonOf(map[string]interface{}{"a": v, "x": "1"}), "the given maps are left alone")
	rt.AssertBytesEq(jsonOf(b), jsonOf(map[string]interface{}{"b": v, "x": "2"}), "the given maps are left alone")
	out := w.out()
	rt.Assert(len(out) == 2, "one write each")
	h, e := tcpx.HeaderBytesOf(out[0])
	rt.Assert(e == nil, "header")
	rt.AssertBytesEq(h, jsonOf(map[string]interface{}{"a": v, "b": v, "x": "2"}), "the first reply carries both maps, the later one winning")
	h, e = tcpx.HeaderBytesOf(out[1])
	rt.Assert(e == nil, "header")
	rt.AssertBytesEq(h, jsonOf(second), "the second reply carries its own map")
	rt.Reach("replied")
}

// C23_messages: server deadlines of any instants, with heartbeat, auth and limits on or off; after any 3 of a message, one without handler, a batch, a heartbeat, an auth pass and a reply on a connection, its deadlines are still the configured ones.
func C23_messages() {
	quiet()
	r, w := rt.Int("read", 1, 1000000), rt.Int("write", 1, 1000000)
	base := time.Unix(5000, 0)
	rd, wd := base.Add(time.Duration(r)), base.Add(time.Duration(w))
	srv := tcpx.NewTcpX(nil)
	srv.SetReadDeadline(rd)
	srv.SetWriteDeadline(wd)
	srv.HeartBeatMode(true, time.Hour)
	srv.WithAuthDetail(true, time.Hour, false, 7, func(c *tcpx.Context) { c.RecvAuthPass() })
	if rt.Bool("limit") {
		srv.SetMaxBytePerMessage(1000)
	}
	if rt.Bool("pool") {
		srv.WithBuiltInPool(true)
	}
	n := 0
	srv.AddHandler(1, func(c *tcpx.Context) { n++ })
	srv.AddHandler(2, func(c *tcpx.Context) { n++; c.JSON(3, "x"); c.Online("bob") })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	for i := 0; i < 3; i++ {
		switch rt.Choose("what", 6) {
		case 0:
			c.Send(idFrame(1, nil))
		case 1:
			c.Send(idFrame(2, nil))
		case 2:
			c.Send(idFrame(99, nil))
		case 3:
			c.Send(frame(1, jsonOf(map[string]interface{}{pipedKey: "enable;2"}), nil))
			c.Send(idFrame(2, nil))
		case 4:
			c.Send(idFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, nil))
		case 5:
			c.Send(idFrame(7, nil))
		}
		rt.Idle()
		rt.Assert(c.ReadDL.Equal(rd) && c.WriteDL.Equal(wd), "handling messages leaves the configured deadlines alone")
	}
	rt.Reach("kept")
}
