package zzvh

import (
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

type udpSeen struct {
	stream []byte
	body   string
	berr   error
	from   string
	ctx    *tcpx.Context
	old    bool // saw a value of another datagram
}

// C24_datagrams: 2 (thorough 3) datagrams from two senders, each a complete frame for either of two handlers or an unknown ID (any 2-byte body, 0..3 arbitrary trailing bytes),
// a frame cut anywhere, or 0..17 arbitrary bytes: exactly the complete ones are handled, once, with exactly the frame, and replies go to the sender.
func C24_datagrams() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var got []udpSeen
	h := func(c *tcpx.Context) {
		_, had := c.GetCtxPerRequest("mine")
		_, hadc := c.GetCtxPerConn("mine")
		c.SetCtxPerRequest("mine", 1)
		c.SetCtxPerConn("mine", 1)
		s := udpSeen{stream: append([]byte(nil), c.Stream...), from: c.Addr.String(), ctx: c, old: had || hadc}
		_, s.berr = c.Bind(&s.body)
		got = append(got, s)
		e := c.JSON(9, "re")
		rt.Assert(e == nil, "the reply is sent")
	}
	srv.AddHandler(1, h)
	srv.AddHandler(2, h)
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	rt.Assert(p != nil, "the server listens")
	n := 2 + rt.Tier()
	var want []udpSeen
	sent := 0
	for i := 0; i < n; i++ {
		from := []string{"a:1", "b:2"}[rt.Choose("from", 2)]
		switch kind := rt.Choose("kind", 3); kind {
		case 0, 1:
			s := rt.Str("s", 2)
			letters(s)
			id := rt.I32("id")
			f := idFrame(id, jsonOf(s))
			if kind == 1 {
				cut := rt.Choose("cut", len(f))
				p.Deliver(append([]byte(nil), f[:cut]...), from)
				rt.Reach("cut")
			} else {
				tail := rt.Bytes("tail", rt.Choose("taillen", 4))
				p.Deliver(cat(f, tail), from)
				if id == 1 || id == 2 {
					want = append(want, udpSeen{stream: f, body: s, from: from})
				}
			}
		case 2:
			b := rt.Bytes("junk", rt.Choose("junklen", 18))
			if len(b) >= 16 {
				rt.Assume(rd32(b) > uint32(len(b)-4)) // declares more than it carries (or a negative length)
			}
			p.Deliver(b, from)
			rt.Reach("junk")
		}
		if rt.Bool("wait") {
			rt.Idle()
		}
		sent++
	}
	rt.Idle()
	rt.Assert(!p.IsClosed(), "no datagram stops the server")
	rt.Assert(len(got) == len(want), "exactly the complete frames with a handler are handled")
	used := make([]bool, len(got))
	for _, w := range want {
		hit := false
		for j, g := range got {
			if !used[j] && !hit && g.from == w.from && string(g.stream) == string(w.stream) {
				used[j], hit = true, true
				rt.Assert(g.berr == nil && g.body == w.body, "the handler binds the body of its own datagram")
			}
		}
		rt.Assert(hit, "each complete frame is handled with exactly its bytes and its sender")
	}
	for j, g := range got {
		rt.Assert(!g.old, "scoped values are not shared between datagrams")
		for k := 0; k < j; k++ {
			rt.Assert(got[k].ctx != g.ctx, "contexts are not shared between datagrams")
		}
		// the handler's stream stays its own after later datagrams
		rt.AssertBytesEq(g.ctx.Stream, g.stream, "a handled frame is not overwritten by later datagrams")
	}
	out := p.Written()
	rt.Assert(len(out) == len(want), "one reply per handled datagram")
	na, nb := 0, 0
	for _, o := range out {
		rt.AssertBytesEq(o.B, frame(9, []byte("{}"), []byte(`"re"`)), "the reply is a whole frame")
		if o.Addr.String() == "a:1" {
			na++
		}
		if o.Addr.String() == "b:2" {
			nb++
		}
	}
	wa, wb := 0, 0
	for _, w := range want {
		if w.from == "a:1" {
			wa++
		} else {
			wb++
		}
	}
	rt.Assert(na == wa && nb == wb, "each reply goes to the sender of its request")
	if len(want) == n {
		rt.Reach("all handled")
	}
	rt.Reach("done")
}

// C24_mixed: a datagram of 0..1400 arbitrary body bytes in a buffer of the default size, followed by up to two receive errors (broken, temporary, timeout, other) and another datagram: the frame
// is handled exactly when the datagram carries all of it; the server keeps serving.
func C24_mixed() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var bodies [][]byte
	srv.AddHandler(1, func(c *tcpx.Context) {
		b, e := tcpx.BodyBytesOf(c.Stream)
		rt.Assert(e == nil, "the handled frame has a body")
		bodies = append(bodies, b)
	})
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	n := rt.Int("n", 0, 1400)
	body := rt.Big("body", n)
	p.Deliver(idFrame(1, body), "a:1")
	rt.Idle()
	rt.Assert(len(bodies) == 1, "a datagram carrying a complete frame is handled")
	rt.AssertBytesEq(bodies[0], body, "it is handled with exactly its body")
	if rt.Bool("readerror") {
		p.DeliverErr([]error{errBroken, rt.NetErr{}, rt.NetErr{Temp: true}, rt.NetErr{TO: true, Temp: true}}[rt.Choose("errkind", 4)])
		if rt.Bool("again") {
			p.DeliverErr(errBroken)
		}
		rt.Idle()
		rt.Reach("read error")
	}
	p.Deliver(idFrame(1, []byte("2")), "b:1")
	rt.Idle()
	rt.Assert(len(bodies) == 2, "later datagrams are handled")
	rt.AssertBytesEq(bodies[1], []byte("2"), "a later datagram has its own body")
	rt.AssertBytesEq(bodies[0], body, "an earlier body is not overwritten")
	rt.Reach("done")
}

// C24_urls: datagrams routed by URL pattern and by ID interleave (3 of any kind): each runs its own handler once.
func C24_urls() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	tr := &trace{}
	srv.UseGlobal(tr.mw(1))
	srv.AddHandler(5, tr.mw(50))
	srv.Any("/u", tr.mw(60))
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	for i := 0; i < 3; i++ {
		tr.t = nil
		var want []int
		switch rt.Choose("kind", 4) {
		case 0:
			p.Deliver(idFrame(5, nil), "a:1")
			want = []int{1, 50}
		case 1:
			p.Deliver(urlFrame(5, "/u", nil), "a:1")
			want = []int{1, 60}
		case 2:
			p.Deliver(urlFrame(5, "/none", nil), "a:1")
		case 3:
			p.Deliver(idFrame(6, nil), "a:1")
		}
		rt.Idle()
		rt.Assert(sameInts(tr.t, want), "a datagram runs exactly its own chain")
	}
	rt.Reach("done")
}
