package zzvh

import (
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

func rawUp(srv *tcpx.TcpX) *rt.FListener {
	go srv.ListenAndServeRaw("tcp", ":1")
	rt.Idle()
	l := rt.OpenListener("tcp", ":1")
	rt.Assert(l != nil, "the raw server listens")
	return l
}

type rawRun struct {
	t    []int
	got  []byte
	wrot []byte
}

// C28_stream: two raw connections with 0..2 global and 0..2 anchor middlewares (one of them un-used again), any of which may abort for one of them; the clients send
// 0..5 arbitrary bytes in one or two pieces; the handler reads with buffers of 1..3 bytes and answers with arbitrary bytes: chain and bytes are exact and independent.
func C28_stream() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	runs := map[string]*rawRun{"a:1": {}, "b:1": {}}
	abortAt := rt.Choose("abort", 6) // step at which connection a aborts; 5: never
	var want []int
	step := func(k int) func(c *tcpx.Context) {
		want = append(want, k)
		return func(c *tcpx.Context) {
			a := c.Conn.RemoteAddr().String()
			r := runs[a]
			r.t = append(r.t, k)
			if a == "a:1" && k == abortAt {
				c.Abort()
			}
		}
	}
	ng := rt.Choose("globals", 3)
	if ng > 0 {
		srv.UseGlobal(step(0))
	}
	if ng > 1 {
		srv.UseGlobal(step(1))
	}
	na := rt.Choose("anchors", 3)
	if na > 0 {
		srv.Use("x", step(2))
	}
	if na > 1 {
		srv.Use("y", step(3))
		srv.UnUse("x")
	}
	size := 1 + rt.Choose("bufsize", 3)
	viaConn := rt.Bool("viaconn")
	srv.HandleRaw = func(c *tcpx.Context) {
		r := runs[c.Conn.RemoteAddr().String()]
		r.t = append(r.t, 9)
		b := make([]byte, size)
		for {
			var n int
			var e error
			if viaConn {
				n, e = c.Conn.Read(b)
			} else {
				n, e = c.ConnReader.Read(b)
			}
			r.got = append(r.got, b[:n]...)
			if e != nil {
				break
			}
			o := append([]byte{7}, b[:n]...)
			r.wrot = append(r.wrot, o...)
			if viaConn {
				c.Conn.Write(o)
			} else {
				c.ConnWriter.Write(o)
			}
		}
	}
	want = append(want, 9)
	l := rawUp(srv)
	data := rt.Bytes("data", rt.Choose("len", 6))
	cut := rt.Choose("cut", len(data)+1)
	ca := l.Connect("a:1")
	ca.Send(data[:cut])
	if rt.Bool("wait") {
		rt.Idle()
	}
	ca.Send(data[cut:])
	cb := l.Connect("b:1")
	cb.Send([]byte{1, 2, 3})
	rt.Idle()
	ca.SendEOF()
	rt.Idle()
	aborted := false
	wa := []int{}
	for _, k := range want {
		wa = append(wa, k)
		if k == abortAt {
			aborted = true
			break
		}
	}
	ra, rb := runs["a:1"], runs["b:1"]
	rt.Assert(sameInts(ra.t, wa), "a raw connection runs every middleware in order, then the raw handler, unless aborted")
	if aborted {
		rt.Assert(len(ra.got) == 0 && ca.Consumed == 0, "an aborted connection has none of its bytes read")
		rt.Assert(len(ca.Written()) == 0, "nothing is written to an aborted connection")
		rt.Reach("aborted")
	} else {
		rt.AssertBytesEq(ra.got, data, "the raw handler reads exactly the bytes the client sent")
		rt.AssertBytesEq(cat(ca.Written()...), ra.wrot, "what the raw handler writes reaches the client unchanged")
		rt.Reach("handled")
	}
	rt.Assert(ca.IsClosed(), "the connection is closed when its handler returns")
	rt.Assert(!cb.IsClosed(), "another connection is not affected")
	rt.Assert(sameInts(rb.t, want), "another connection runs its own full chain")
	rt.AssertBytesEq(rb.got, []byte{1, 2, 3}, "another connection reads its own bytes")
	rt.AssertBytesEq(cat(cb.Written()...), rb.wrot, "another connection gets its own answers")
	cb.Send([]byte{4})
	rt.Idle()
	rt.AssertBytesEq(rb.got, []byte{1, 2, 3, 4}, "another connection goes on being served")
	cb.SendEOF()
	rt.Idle()
	rt.Assert(cb.IsClosed() && sameInts(rb.t, want), "it ends on its own")
	rt.Reach("done")
}

// C28_big: any byte stream of 0..70000 bytes delivered in reads of any sizes to a handler reading it whole, and written back whole; frames or heartbeat messages in it
// have no special meaning, with heartbeat, auth, limits and pool configured or not.
func C28_big() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("modes") {
		srv.WithBuiltInPool(true)
		srv.SetMaxBytePerMessage(8)
		srv.AddHandler(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, func(c *tcpx.Context) { rt.Fail("no routed handler runs on a raw connection") })
		srv.OnMessage = func(c *tcpx.Context) { rt.Fail("no message callback runs on a raw connection") }
	}
	var in []byte
	if rt.Bool("frame") {
		in = cat(tcpx.PackHeartbeat(), rt.Bytes("after", 2))
	} else {
		in = rt.Big("in", rt.Int("n", 0, sizeMax))
	}
	var got []byte
	ran := 0
	srv.HandleRaw = func(c *tcpx.Context) {
		ran++
		b := make([]byte, sizeMax)
		for {
			n, e := c.ConnReader.Read(b)
			got = append(got, b[:n]...)
			if e != nil {
				break
			}
		}
		c.ConnWriter.Write(got)
	}
	l := rawUp(srv)
	c := l.Connect("a:1")
	reads := 0
	c.ReadN = func(want, avail int) int {
		reads++
		if reads > 2 {
			return want
		}
		k := rt.Int("k", 1, sizeMax)
		rt.Assume(k <= want)
		return k
	}
	c.EOFWithData = rt.Bool("eofwithdata")
	c.Send(in)
	c.SendEOF()
	rt.Idle()
	rt.Assert(ran == 1, "the raw handler runs once")
	rt.AssertBytesEq(got, in, "the raw handler reads exactly the bytes the client sent")
	rt.AssertBytesEq(cat(c.Written()...), in, "what it writes reaches the client unchanged")
	rt.Assert(c.IsClosed(), "the connection is closed when the handler returns")
	rt.Reach("read")
}

// C28_none: a raw server without a raw handler, or whose handler panics or returns at once, keeps accepting connections, each of which runs its own chain.
func C28_none() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	tr := &trace{}
	srv.UseGlobal(tr.mw(1))
	how := rt.Choose("how", 2)
	srv.HandleRaw = func(c *tcpx.Context) {
		tr.t = append(tr.t, 2)
		if how == 1 {
			panic("handler")
		}
	}
	l := rawUp(srv)
	for i := 0; i < 3; i++ {
		tr.t = nil
		c := l.Connect("a:1")
		c.Send(rt.Bytes("b", 2))
		rt.Idle()
		rt.Assert(sameInts(tr.t, []int{1, 2}), "each connection runs its chain once")
		rt.Assert(c.IsClosed(), "it is closed when the handler ends")
	}
	rt.Reach("three")
}
