package zzvh

import (
	"crypto/tls"
	"io"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

var _ tls.Config

// hugeMax bounds the payload lengths of the few harnesses that go beyond 16 and 24 bit lengths.
const hugeMax = 1 << 26

// C01_huge: a codec output or encoded body of any length 0..2^26 through two entry points; any ID.
func C01_huge() {
	quiet()
	id := rt.I32("id")
	body := rt.Big("body", rt.Int("n", 0, hugeMax))
	var p []byte
	var e error
	if rt.Bool("codec") {
		p, e = tcpx.NewPackx(&recM{out: body}).Pack(id, 1)
	} else {
		p, e = tcpx.PackJSON.PackWithBody(id, body)
	}
	rt.Assert(e == nil, "packing an encodable message succeeds")
	rt.AssertBytesEq(p, frame(id, []byte("{}"), body), "the packed bytes are exactly the documented frame")
	rt.Reach("packed")
}

// C01_longheader: a header whose encoding is longer than 16-bit lengths (70008 bytes), any ID, any body of 3 bytes.
func C01_longheader() {
	quiet()
	rt.Opt("maxSteps", 40000000)
	id := rt.I32("id")
	v := make([]byte, 70000)
	for i := range v {
		v[i] = 'x'
	}
	h := map[string]interface{}{"k": string(v)}
	body := rt.Bytes("body", 3)
	var p []byte
	var e error
	if rt.Bool("codec") {
		p, e = tcpx.NewPackx(&recM{out: body}).Pack(id, 1, h)
	} else {
		p, e = tcpx.PackJSON.PackWithBody(id, body, h)
	}
	rt.Assert(e == nil, "packing an encodable message succeeds")
	rt.AssertBytesEq(p, frame(id, cat([]byte(`{"k":"`), v, []byte(`"}`)), body), "the packed bytes are exactly the documented frame")
	rt.Reach("packed")
}

// C05_huge: a frame with a payload of any length 0..2^26 followed by another, every entry point: both are read unchanged.
func C05_huge() {
	quiet()
	n := rt.Int("n", 0, hugeMax)
	f1, f2 := cat(be32(uint32(n)), rt.Big("p", n)), []byte{0, 0, 0, 1, 7}
	k := rt.Choose("via", 6)
	rt.Assume(n <= sizeMax || k != 3 && k != 4)
	s := &src{b: cat(f1, f2), endErr: io.EOF}
	b, e := readBlock(k, s)
	rt.Assert(e == nil, "the first frame is read")
	rt.AssertBytesEq(b, f1, "the first block is the first frame")
	b, e = readBlock(k, s)
	rt.Assert(e == nil, "the second frame is read")
	rt.AssertBytesEq(b, f2, "the second block is the second frame")
	rt.Reach("read")
}

// flaky fails once at a byte position and goes on delivering afterwards.
type flaky struct {
	src
	at   int
	err  error
	done bool
}

func (f *flaky) Read(p []byte) (int, error) {
	if !f.done && f.at == 0 {
		f.done = true
		return 0, f.err
	}
	if !f.done && len(p) > f.at {
		p = p[:f.at]
	}
	n, e := f.src.Read(p)
	f.at -= n
	return n, e
}

// C05_failure: a frame of any length whose stream fails once, at any byte of it, with an error of any kind (timeout, temporary, plain, end-of-file) and would go on delivering:
// an error and no block; other kinds than end-of-file are not reported as a clean end.
func C05_failure() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	f := cat(be32(uint32(n)), rt.Big("p", n))
	at := rt.Int("at", 0, sizeMax+4)
	rt.Assume(at < len(f))
	s := &flaky{src: src{b: cat(f, f), endErr: io.EOF}, at: at}
	kind := rt.Choose("kind", 5)
	switch kind {
	case 0:
		s.err = io.EOF
	case 1:
		s.err = errBroken
	case 2:
		s.err = rt.NetErr{}
	case 3:
		s.err = rt.NetErr{TO: true}
	case 4:
		s.err = rt.NetErr{Temp: true}
	}
	b, e := readBlock(rt.Choose("via", 6), s)
	rt.Assert(e != nil && len(b) == 0, "an incomplete frame is an error and no block")
	if kind != 0 {
		rt.Assert(e != io.EOF, "a failure is not reported as a clean end")
	}
	rt.Reach("failed")
}

// C07_several: Use, UnUse and UseGlobal of 1..3 middlewares in one call, handlers by ID and URL with 0..5 own middlewares: each message runs exactly its chain.
func C07_several() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	keys := []string{"a", "b", "c"}
	use := rt.Choose("use", 3)
	var args []interface{}
	for i := 0; i <= use; i++ {
		args = append(args, keys[i], tr.mw(i))
	}
	srv.Use(args...)
	glob := rt.Choose("globals", 4)
	var gs []func(c *tcpx.Context)
	want := []int{}
	for i := 0; i < glob; i++ {
		gs = append(gs, tr.mw(50+i))
		want = append(want, 50+i)
	}
	srv.UseGlobal(gs...)
	srv.AddHandler(1, tr.mw(98))
	one := append([]int{}, want...)
	for i := 0; i <= use; i++ {
		one = append(one, i)
	}
	one = append(one, 98)
	// unuse a non-empty subset in one call
	var off [3]bool
	var names []string
	for i := 0; i <= use; i++ {
		if rt.Bool("off") {
			off[i] = true
			names = append(names, keys[i])
		}
	}
	if len(names) > 0 {
		srv.UnUse(names...)
	}
	own := rt.Choose("own", 6)
	two := append([]int{}, want...)
	for i := 0; i <= use; i++ {
		if !off[i] {
			two = append(two, i)
		}
	}
	var hs []func(c *tcpx.Context)
	for i := 0; i < own; i++ {
		hs = append(hs, tr.mw(60+i))
		two = append(two, 60+i)
	}
	hs = append(hs, tr.mw(99))
	two = append(two, 99)
	second := idFrame(2, nil)
	if rt.Bool("url") {
		srv.Any("/u", hs...)
		second = uFrame("/u", nil)
	} else {
		srv.AddHandler(2, hs...)
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(idFrame(1, nil))
	rt.Idle()
	rt.Assert(sameInts(tr.t, one), "a message runs the middlewares in use when its handler was registered")
	tr.t = nil
	c.Send(second)
	rt.Idle()
	rt.Assert(sameInts(tr.t, two), "a message runs the middlewares in use when its handler was registered")
	rt.Reach("ran")
}

// C11_batch: a batch of 1100 messages, one of whose handlers takes a while: all are handled, in order; the message behind it as well.
func C11_batch() {
	quiet()
	rt.Opt("maxSteps", 40000000)
	n := 1100
	var stream []byte
	for i := 0; i < n; i++ {
		h := []byte("{}")
		if i == 0 {
			h = []byte(`{"` + pipedKey + `":"enable;1100"}`)
		}
		stream = append(stream, frame(1, h, be32(uint32(i)))...)
	}
	srv := tcpx.NewTcpX(nil)
	next, after := 0, 0
	srv.AddHandler(1, func(c *tcpx.Context) {
		if next == 3 {
			time.Sleep(5)
		}
		b, e := c.RawStream()
		rt.Assert(e == nil && int(rd32(b)) == next, "messages of a batch are handled in the order sent")
		next++
	})
	id := rt.I32("id")
	rt.Assume(id != 1)
	srv.AddHandler(id, func(c *tcpx.Context) { after++ })
	c := up(srv).Connect("9.9.9.9:1")
	c.Send(stream)
	c.Send(idFrame(id, nil))
	rt.Idle()
	time.Sleep(10)
	rt.Idle()
	rt.Assert(next == n, "every message of the batch is handled once")
	rt.Assert(after == 1 && !c.IsClosed(), "messages after the batch are handled")
	rt.Reach("batch")
}

// C13_instant: a heartbeat at the very instant at which the first or second silent interval (any, up to 1000 ticks) ends: the connection is dropped three intervals later.
func C13_instant() {
	quiet()
	d := time.Duration(rt.Int("interval", 2, 1000))
	k := time.Duration(1 + rt.Choose("k", 2))
	srv := tcpx.NewTcpX(nil)
	srv.HeartBeatMode(true, d)
	lost := 0
	srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { lost++ })
	srv.AddHandler(5, func(c *tcpx.Context) {
		time.Sleep(k * d)
		c.RecvHeartBeat()
	})
	c := up(srv).Connect("9.9.9.9:1")
	if rt.Bool("watched") {
		rt.Idle()
	}
	c.Send(idFrame(5, nil))
	rt.Idle()
	time.Sleep(k*d + 3*d - 1)
	rt.Idle()
	rt.Assert(!c.IsClosed() && lost == 0, "a heartbeat restarts the count")
	time.Sleep(2)
	rt.Idle()
	rt.Assert(c.IsClosed() && lost == 1, "dropped after three silent intervals")
	rt.Reach("dropped")
}

// C16_packet: a packet server with a buffer of 8192 or 20000 bytes given or none, restarted 0..2 times: datagrams up to the size of the buffer (without one up to 4096 bytes) are handled.
func C16_packet() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var got []byte
	ran := 0
	srv.AddHandler(1, func(c *tcpx.Context) {
		ran++
		got, _ = c.RawStream()
	})
	max := 0
	switch rt.Choose("buffer", 3) {
	case 0:
		go srv.ListenAndServe("udp", ":1")
		max = 4096
	case 1:
		max = 8192
		go srv.ListenAndServeUDP("udp", ":1", max)
	case 2:
		max = 20000
		go srv.ListenAndServeUDP("udp", ":1", max)
	}
	rt.Idle()
	for i := rt.Choose("restarts", 3); i > 0; i-- {
		rt.Assert(srv.Restart(false) == nil, "the server restarts")
		rt.Idle()
	}
	n := rt.Int("n", 0, 20000)
	rt.Assume(n+18 <= max)
	body := rt.Big("body", n)
	rt.OpenPacket("udp", ":1").Deliver(idFrame(1, body), "9.9.9.9:1")
	rt.Idle()
	rt.Assert(ran == 1, "the datagram is handled")
	rt.AssertBytesEq(got, body, "whole")
	rt.Reach("served")
}

// C20_mapped: IPv4-mapped and compressed IPv6 hosts with one arbitrary digit: reported as they are.
func C20_mapped() {
	quiet()
	d := rt.Str("d", 1)
	rt.Assume(d[0] >= '0' && d[0] <= '9')
	host := []string{"::ffff:10.1.2.", "64:ff9b::", "2001:db8::a", "::"}[rt.Choose("kind", 4)] + d
	rt.Assume(host != "::1")
	ip := ipOf(rt.Bool("udp"), "["+host+"]:"+"443")
	rt.Assert(ip == host, "the client IP is the host part of the address")
	rt.Reach("host")
}

// C23_callback: server deadlines of any instants and a connect callback (or the connection's first message) that changes one through the context: the change stays in effect, on framed and raw servers,
// also when further messages and connections arrive.
func C23_callback() {
	quiet()
	t0 := time.Now()
	g := t0.Add(time.Duration(rt.Int("general", 1, 1<<40)))
	own := t0.Add(time.Duration(rt.Int("own", 1, 1<<40)))
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("has general") {
		srv.SetDeadline(g)
	} else {
		g = time.Time{}
	}
	op := rt.Choose("op", 3)
	wr, ww := g, g
	if op != 1 {
		wr = own
	}
	if op != 2 {
		ww = own
	}
	set := func(c *tcpx.Context) {
		if c.ClientIP() != "9.9.9.9" {
			return
		}
		var e error
		switch op {
		case 0:
			e = c.SetDeadline(own)
		case 1:
			e = c.SetWriteDeadline(own)
		case 2:
			e = c.SetReadDeadline(own)
		}
		rt.Assert(e == nil, "set")
	}
	raw := rt.Bool("raw")
	late := !raw && rt.Bool("late")
	if !late {
		srv.OnConnect = set
	} else {
		srv.AddHandler(1, set)
	}
	srv.AddHandler(2, func(c *tcpx.Context) { c.JSON(3, 1) })
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 1)
		for {
			if _, e := c.ConnReader.Read(b); e != nil {
				return
			}
		}
	}
	var l *rt.FListener
	if raw {
		l = rawUp(srv)
	} else {
		l = up(srv)
	}
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	if late {
		c.Send(idFrame(1, nil))
		rt.Idle()
	}
	rt.Assert(c.ReadDL.Equal(wr) && c.WriteDL.Equal(ww), "a deadline set through the context is in effect")
	c.Send(idFrame(2, nil))
	o := l.Connect("8.8.8.8:1")
	rt.Idle()
	rt.Assert(c.ReadDL.Equal(wr) && c.WriteDL.Equal(ww), "a deadline set through the context stays in effect")
	rt.Assert(o.ReadDL.Equal(g) && o.WriteDL.Equal(g), "other connections keep the server's")
	rt.Reach("kept")
}

// C31_reload: a certificate loaded once or twice (any 1-letter names), the second time before the start or between stop and start: listeners opened afterwards encrypt with exactly the latest one.
func C31_reload() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	srv.AddHandler(1, func(c *tcpx.Context) {})
	c1, k1 := rt.Str("cert1", 1), rt.Str("key1", 1)
	c2, k2 := rt.Str("cert2", 1), rt.Str("key2", 1)
	first := rt.Bool("first")
	if first {
		rt.Assert(srv.LoadTLSFile(c1, k1) == nil, "the certificate loads")
	}
	later := rt.Bool("later")
	if !later {
		rt.Assert(srv.LoadTLSFile(c2, k2) == nil, "the certificate loads")
	}
	l := up(srv)
	if later {
		rt.Assert(l.TLS == first, "encrypted if a certificate is loaded")
		srv.Stop(true)
		rt.Idle()
		rt.Assert(srv.LoadTLSFile(c2, k2) == nil, "the certificate loads")
		rt.Assert(srv.Start() == nil, "starts")
		rt.Idle()
		l = rt.OpenListener("tcp", ":1")
		rt.Assert(l != nil, "listens again")
	}
	rt.Assert(l.TLS && l.TLSConf != nil && len(l.TLSConf.Certificates) == 1, "encrypted with the latest certificate")
	x := l.TLSConf.Certificates[0].Certificate
	rt.Assert(string(x[0]) == c2 && string(x[1]) == k2, "encrypted with the latest certificate")
	rt.Reach("latest")
}

// C11_announced: a batch that announces far more messages than it holds (from 18 digits up to the largest number there is, and beyond), 1..2 messages and the end of the stream: those that arrived are handled (none, if the number is beyond 64 bits), the
// connection is closed with one close callback and others are served.
func C11_announced() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	ran, closes, served := 0, 0, 0
	srv.AddHandler(1, func(c *tcpx.Context) { ran++ })
	srv.AddHandler(7, func(c *tcpx.Context) { served++ })
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	l := up(srv)
	o := l.Connect("8.8.8.8:1")
	c := l.Connect("9.9.9.9:1")
	n := []string{"9223372036854775807", "9223372036854775806", "4611686018427387904", "2147483649", "9223372036854775808", "100000000000000000000000000"}
	k := rt.Choose("count", 6)
	c.Send(frame(1, []byte(`{"`+pipedKey+`":"enable;`+n[k]+`"}`), nil))
	want := 1
	if rt.Bool("two") {
		want++
		c.Send(idFrame(1, nil))
	}
	c.SendEOF()
	rt.Idle()
	if k > 3 {
		want = 0
	}
	rt.Assert(ran == want, "the messages that arrived are handled")
	rt.Assert(c.IsClosed() && closes == 1, "the connection is closed with one close callback")
	o.Send(idFrame(7, nil))
	rt.Idle()
	rt.Assert(served == 1 && !o.IsClosed(), "others are served")
	rt.Reach("served")
}

// C31_empty: a TLS configuration without a certificate, or with certificates chosen per connection, on one of the stream networks: the server reports an error, or encrypts; it never listens in the clear.
func C31_empty() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	srv.TLSConfig = &tls.Config{}
	some := rt.Bool("chosen")
	if some {
		srv.TLSConfig.GetCertificate = func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return nil, errBroken }
	}
	var e error
	ret := false
	nw := []string{"tcp", "tcp4", "tcp6", "unix"}[rt.Choose("network", 4)]
	direct := rt.Bool("direct")
	go func() {
		if direct {
			e = srv.ListenAndServeTCP(nw, ":1")
		} else {
			e = srv.ListenAndServe(nw, ":1")
		}
		ret = true
	}()
	rt.Idle()
	for _, l := range rt.N.Listeners {
		rt.Assert(l.TLS || l.IsClosed(), "a server with a TLS configuration never listens in the clear")
	}
	if some {
		rt.Assert(rt.OpenListener(nw, ":1") != nil && !ret, "the server listens")
		rt.Reach("encrypted")
	} else {
		rt.Assert(ret && e != nil, "a configuration without certificate is reported as an error")
		rt.Reach("refused")
	}
}

// C06_huge: any declared length and any positive maximum of 32 bits (payloads up to 2^26 bytes are delivered): refused with only the length consumed, or accepted unchanged.
func C06_huge() {
	quiet()
	max := rt.I32("max")
	rt.Assume(max > 0)
	l := rt.I32("len")
	rt.Assume(l >= 0)
	n := int(l)
	if l > max {
		n = 50
	} else {
		rt.Assume(l <= hugeMax)
	}
	s := &src{b: cat(be32(uint32(l)), rt.Big("p", n)), endErr: io.EOF}
	f := s.b
	var b []byte
	var e error
	switch rt.Choose("via", 3) {
	case 0:
		b, e = tcpx.FirstBlockOfLimitMaxByte(s, max)
	case 1:
		b, e = tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(s, int(max))
	case 2:
		b, e = tcpx.PackJSON.FirstBlockOfLimitMaxByte(s, max)
	}
	if l > max {
		rt.Assert(e != nil && len(b) == 0, "a block beyond the maximum is refused")
		rt.Assert(len(s.b) == len(f)-4, "none of its payload is read")
		rt.Reach("refused")
		return
	}
	rt.Assert(e == nil, "a block within the maximum is accepted")
	rt.AssertBytesEq(b, f, "it is returned unchanged")
	rt.Reach("accepted")
}

// C25_key: a header with one string value under any key of 1..4 printable characters (none of the routing keys is that short): no route type, no URL pattern, no error; with a routing entry beside it, that entry is what is read.
func C25_key() {
	quiet()
	k := rt.Str("key", 1+rt.Choose("klen", 4))
	for i := 0; i < len(k); i++ {
		rt.Assume(k[i] >= ' ' && k[i] < 0x7f && k[i] != '"' && k[i] != '\\')
	}
	beside := rt.Choose("beside", 3)
	js := `{"` + k + `":"v"`
	switch beside {
	case 1:
		js += `,"Router-Type":"t"`
	case 2:
		js += `,"Router-Pattern-Value":"u"`
	}
	p := frame(1, []byte(js+"}"), []byte("1"))
	t, e := tcpx.RouteTypeOf(p)
	u, e2 := tcpx.URLPatternOf(p)
	rt.Assert(e == nil && e2 == nil, "other header keys do not matter")
	wt, wu := "", ""
	if beside == 1 {
		wt = "t"
	}
	if beside == 2 {
		wu = "u"
	}
	rt.Assert(t == wt, "an absent route type is empty, a present one is returned")
	rt.Assert(u == wu, "an absent URL pattern is empty, a present one is returned")
	ctx := tcpx.NewContext(rt.NewConn("p"), nil)
	ctx.Stream = p
	u, e = ctx.GetURLPattern()
	rt.Assert(e == nil && u == wu, "the context's URL pattern is the one in the header")
	rt.Reach("read")
}

// C07_both: heartbeat and auth configured on one server, in either order, each on or off and each through the middlewares or not (any combination), any two IDs: each of the two messages runs its handler alone exactly when its own
// mode is on and not through the middlewares, the whole chain otherwise; both messages and an ordinary one are sent in either order.
func C07_both() {
	quiet()
	tr := &trace{}
	srv := tcpx.NewTcpX(nil)
	srv.UseGlobal(tr.mw(1))
	srv.Use("a", tr.mw(2))
	hOn, hThrough := rt.Bool("heartbeat"), rt.Bool("hthrough")
	aOn, aThrough := rt.Bool("auth"), rt.Bool("athrough")
	hb, au := rt.I32("hb"), rt.I32("au")
	rt.Assume(hb != au && hb != 5 && au != 5 && hb != 77 && au != 77)
	d := time.Duration(1000000000)
	beat := func() {
		srv.HeartBeatModeDetail(hOn, d, hThrough, 77)
		if hOn {
			srv.RewriteHeartBeatHandler(hb, tr.mw(8))
		} else {
			srv.AddHandler(hb, tr.mw(8))
		}
	}
	auth := func() {
		pass := func(c *tcpx.Context) { tr.t = append(tr.t, 9); c.RecvAuthPass() }
		srv.WithAuthDetail(aOn, d, aThrough, au, pass)
		if !aOn {
			srv.AddHandler(au, pass)
		}
	}
	if rt.Bool("auth first") {
		auth()
		beat()
	} else {
		beat()
		auth()
	}
	srv.AddHandler(5, tr.mw(6))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	say := func(id int32, h int, alone bool) {
		tr.t = nil
		c.Send(idFrame(id, nil))
		rt.Idle()
		want := []int{1, 2, h}
		if alone {
			want = []int{h}
		}
		rt.Assert(sameInts(tr.t, want), "a heartbeat or auth message runs its handler alone unless configured to go through the middlewares, other messages run their chain")
	}
	if rt.Bool("beat first") {
		say(hb, 8, hOn && !hThrough)
		say(au, 9, aOn && !aThrough)
	} else {
		say(au, 9, aOn && !aThrough)
		say(hb, 8, hOn && !hThrough)
	}
	say(5, 6, false)
	rt.Reach("sent")
}
