package zzvh

import (
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

// poolWorld drives a server with the built-in pool through messages.
type poolWorld struct {
	srv   *tcpx.TcpX
	l     *rt.FListener
	conns []*rt.FConn
	ctxs  []*tcpx.Context // as given to the connect callback
	reqs  []*tcpx.Context // last request context of each connection
	cur   int
	name  string
	err   error
}

func newPoolWorld(n int) *poolWorld {
	w := &poolWorld{srv: tcpx.NewTcpX(nil).WithBuiltInPool(true)}
	w.srv.OnConnect = func(c *tcpx.Context) { w.ctxs = append(w.ctxs, c) }
	w.srv.AddHandler(1, func(c *tcpx.Context) { w.reqs[w.cur] = c; w.err = c.Online(w.name) })
	w.srv.AddHandler(2, func(c *tcpx.Context) { w.reqs[w.cur] = c; w.err = c.Offline() })
	w.srv.AddHandler(3, func(c *tcpx.Context) { w.reqs[w.cur] = c; w.err = c.CloseConn() })
	w.srv.AddHandler(4, func(c *tcpx.Context) { w.reqs[w.cur] = c })
	w.l = up(w.srv)
	w.reqs = make([]*tcpx.Context, n)
	for i := 0; i < n; i++ {
		w.conns = append(w.conns, w.l.Connect("9.9.9.9:1"))
		rt.Idle()
		w.cur = i
		w.conns[i].Send(idFrame(4, nil))
		rt.Idle()
	}
	rt.Assert(len(w.ctxs) == n, "every connection is announced")
	return w
}
func (w *poolWorld) send(i int, id int32) {
	w.cur = i
	w.err = nil
	w.conns[i].Send(idFrame(id, nil))
	rt.Idle()
}

// C15_history: every sequence of 5 (thorough 6) events out of going online under one of two names (any 1-byte names, possibly equal), offline, close by
// handler, close by client and a late online of a request context, over 2 connections: lookups and sends by name reach exactly the latest live connection.
func C15_history() {
	quiet()
	w := newPoolWorld(2)
	names := []string{rt.Str("na", 1), rt.Str("nb", 1)}
	owner := map[string]int{} // live owner + 1
	cname := []string{"", ""}
	closed := []bool{false, false}
	leave := func(i int) {
		if cname[i] != "" && owner[cname[i]] == i+1 {
			owner[cname[i]] = 0
		}
	}
	for k := 0; k < 5+rt.Tier(); k++ {
		i := rt.Choose("who", 2)
		op := rt.Choose("op", 6)
		switch op {
		case 0, 1:
			rt.Assume(!closed[i])
			w.name = names[op]
			w.send(i, 1)
			rt.Assert(w.err == nil, "going online succeeds")
			if cname[i] != w.name {
				leave(i)
			}
			cname[i] = w.name
			owner[w.name] = i + 1
		case 2:
			rt.Assume(!closed[i] && cname[i] != "")
			w.send(i, 2)
			rt.Assert(w.err == nil, "going offline succeeds")
			leave(i)
		case 3:
			rt.Assume(!closed[i])
			w.send(i, 3)
			closed[i] = true
			leave(i)
		case 4:
			rt.Assume(!closed[i])
			w.conns[i].SendEOF()
			rt.Idle()
			closed[i] = true
			leave(i)
		case 5:
			rt.Assume(closed[i])
			e := w.reqs[i].Online(names[0])
			rt.Assert(e != nil, "a closed connection cannot go online")
			cname[i] = names[0]
			rt.Reach("late")
		}
	}
	sender := w.reqs[rt.Choose("sender", 2)]
	for j := 0; j < 2; j++ {
		nm := names[j]
		x := w.ctxs[0].GetPoolRef().GetClientPool(nm)
		o := owner[nm]
		rt.Assert((x != nil) == (o != 0), "a name is found exactly while its latest connection is live")
		n0, n1 := len(w.conns[0].Written()), len(w.conns[1].Written())
		e := sender.SendToUsername(nm, 9, "m")
		m0, m1 := len(w.conns[0].Written()), len(w.conns[1].Written())
		switch o {
		case 0:
			rt.Assert(e != nil, "sending to a user who is not online is an error")
			rt.Assert(m0 == n0 && m1 == n1, "and delivers nothing")
			rt.Reach("absent")
		case 1:
			rt.Assert(e == nil && m0 == n0+1 && m1 == n1, "a send reaches exactly the latest connection of the name")
			rt.AssertBytesEq(w.conns[0].Written()[n0], idFrame(9, []byte(`"m"`)), "as one frame")
			rt.Assert(x.Conn == w.conns[0], "the lookup finds the latest connection")
			rt.Reach("present")
		case 2:
			rt.Assert(e == nil && m0 == n0 && m1 == n1+1, "a send reaches exactly the latest connection of the name")
			rt.AssertBytesEq(w.conns[1].Written()[n1], idFrame(9, []byte(`"m"`)), "as one frame")
			rt.Assert(x.Conn == w.conns[1], "the lookup finds the latest connection")
		}
	}
}

// C15_empty: going online with an empty name, without a pool or going offline without a name are errors that change nothing; sends without a pool fail.
func C15_empty() {
	quiet()
	w := newPoolWorld(2)
	nm := rt.Str("n", rt.Choose("len", 2))
	w.name = nm
	w.send(0, 2)
	rt.Assert(w.err != nil, "offline without a name is an error")
	w.send(0, 1)
	rt.Assert((w.err == nil) == (nm != ""), "an empty name is refused, another is not")
	rt.Assert((w.ctxs[1].GetPoolRef().GetClientPool(nm) != nil) == (nm != ""), "and is not in the pool")
	nop := tcpx.NewContext(rt.NewConn("x"), nil)
	rt.Assert(nop.Online("u") != nil && nop.Offline() != nil, "without a pool online and offline are errors")
	rt.Assert(nop.SendToUsername("u", 1, 2) != nil, "without a pool sending is an error")
	rt.Reach("done")
}

// C15_send: SendToUsername and SendToConn with any message ID, a codec output of 0..70000 bytes, none, one or two header maps, to another connection or the sender's own, from a message or the connect
// context: exactly one frame with that ID, headers and body reaches exactly that connection; a failing write is an error.
func C15_send() {
	quiet()
	m := &recM{out: rt.Big("body", rt.Int("n", 0, sizeMax))}
	srv := tcpx.NewTcpX(m).WithBuiltInPool(true)
	var ctxs, reqs []*tcpx.Context
	srv.OnConnect = func(c *tcpx.Context) { ctxs = append(ctxs, c) }
	names := []string{"a", "b"}
	srv.AddHandler(1, func(c *tcpx.Context) {
		rt.Assert(c.Online(names[len(reqs)]) == nil, "online")
		reqs = append(reqs, c)
	})
	l := up(srv)
	cs := []*rt.FConn{l.Connect("p:0"), l.Connect("p:1")}
	for i := range cs {
		cs[i].Send(idFrame(1, nil))
		rt.Idle()
	}
	from, to := rt.Choose("from", 2), rt.Choose("to", 2)
	x := reqs[from]
	if rt.Bool("connect context") {
		x = ctxs[from]
	}
	fail := rt.Bool("fail")
	if fail {
		cs[to].WriteN = func(p []byte) (int, error) { return 0, errBroken }
	}
	var hs []map[string]interface{}
	want := map[string]interface{}{}
	for i := 0; i < 2; i++ {
		if rt.Bool("header") {
			v := rt.Str("v", 1)
			letters(v)
			hs = append(hs, map[string]interface{}{"k": v})
			want["k"] = v
		}
	}
	id := rt.I32("id")
	var e error
	switch rt.Choose("function", 2) {
	case 0:
		e = x.SendToUsername(names[to], id, 1, hs...)
	case 1:
		e = x.SendToConn(ctxs[to], id, 1, hs...)
	}
	w, o := cs[to].Written(), cs[1-to].Written()
	rt.Assert(len(o) == 0, "nothing reaches another connection")
	if fail {
		rt.Assert(e != nil && len(w) == 0, "a failing send is an error")
		rt.Reach("failed")
		return
	}
	rt.Assert(e == nil && len(w) == 1, "exactly one write reaches the connection")
	rt.AssertBytesEq(w[0], frame(id, jsonOf(want), m.out), "with the given ID, headers and body")
	rt.Reach("sent")
}

// life counts the callbacks of connections.
type life struct {
	opened, closed, handled, early int
	ctxs                           []*tcpx.Context
	conns                          map[string]int
}

func (l *life) hook(srv *tcpx.TcpX) {
	srv.OnConnect = func(c *tcpx.Context) {
		l.opened++
		l.ctxs = append(l.ctxs, c)
		rt.Assert(c.IsOnline() && !c.IsOffline(), "a new connection is online")
		if l.handled > 0 {
			l.early++
		}
	}
	srv.OnClose = func(c *tcpx.Context) { l.closed++ }
}

// C18_framed: a framed connection with 0..2 messages ended in any way (client end, read error, unframeable bytes, closing handler once or twice, close from the
// connect context, heartbeat loss, auth timeout or denial, server closing everything): callbacks exactly once, and everything reports closed.
func C18_framed() {
	quiet()
	how := rt.Choose("how", 10)
	late := rt.Bool("late") // the messages arrive with the end, handlers may run after it
	pool := rt.Bool("pool")
	srv := tcpx.NewTcpX(nil)
	if pool {
		srv.WithBuiltInPool(true)
	}
	lf := &life{}
	lf.hook(srv)
	var reqs []*tcpx.Context
	srv.AddHandler(1, func(c *tcpx.Context) {
		lf.handled++
		rt.Assert(lf.opened == 1, "the connect callback runs before any message")
		reqs = append(reqs, c)
		if !late {
			rt.Assert(c.IsOnline() && !c.IsOffline(), "a live connection is online")
		}
		if pool {
			e := c.Online("bob")
			rt.Assert(e == nil || late, "online")
		}
	})
	srv.AddHandler(2, func(c *tcpx.Context) {
		reqs = append(reqs, c)
		c.CloseConn()
		rt.Assert(c.IsOffline() && !c.IsOnline(), "a closed connection is offline")
	})
	srv.AddHandler(3, func(c *tcpx.Context) {
		reqs = append(reqs, c)
		c.CloseConn()
		c.CloseConn()
	})
	if how == 6 {
		srv.HeartBeatMode(true, time.Second)
	}
	if how == 7 || how == 8 {
		srv.WithAuthDetail(true, time.Second, false, 50, func(c *tcpx.Context) { c.RecvAuthDeny() })
	}
	if how == 9 {
		srv.WithBroadCastSignal(true)
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	n := rt.Choose("msgs", 3)
	for i := 0; i < n; i++ {
		c.Send(idFrame(1, rt.Bytes("b", 1)))
		if !late {
			rt.Idle()
		}
	}
	if !late {
		rt.Idle()
		rt.Assert(lf.opened == 1 && lf.closed == 0 && lf.handled == n, "open")
		rt.Assert(!c.IsClosed(), "the socket is open")
		rt.Assert(lf.ctxs[0].IsOnline(), "online")
	}
	switch how {
	case 0:
		c.SendEOF()
	case 1:
		c.SendErr(errBroken)
	case 2:
		b := rt.Bytes("bad", 4)
		rt.Assume(b[0] >= 0x80)
		c.Send(b)
	case 3:
		c.Send(idFrame(2, nil))
	case 4:
		c.Send(cat(idFrame(3, nil), idFrame(2, nil)))
	case 5:
		rt.Idle()
		lf.ctxs[0].CloseConn()
	case 6, 7:
		time.Sleep(4 * time.Second)
	case 8:
		c.Send(idFrame(50, nil))
	case 9:
		rt.Idle()
		srv.Stop(true)
	}
	rt.Idle()
	rt.Assert(lf.opened == 1, "the connect callback runs once")
	rt.Assert(lf.closed == 1, "the close callback runs exactly once")
	if how != 9 {
		rt.Assert(lf.early == 0, "the connect callback comes first")
	}
	rt.Assert(c.IsClosed(), "the socket is closed")
	x := lf.ctxs[0]
	rt.Assert(x.IsOffline() && !x.IsOnline(), "every context reports offline")
	for _, r := range reqs {
		rt.Assert(r.IsOffline() && !r.IsOnline(), "every context reports offline")
	}
	if pool {
		rt.Assert(x.GetPoolRef().GetClientPool("bob") == nil, "a closed connection is gone from the pool")
		rt.Reach("pool")
	}
	x.CloseConn()
	rt.Idle()
	rt.Assert(lf.closed == 1 && x.IsOffline(), "closing again is harmless")
	if how != 9 {
		d := l.Connect("9.9.9.9:2")
		rt.Idle()
		rt.Assert(lf.opened == 2 && lf.closed == 1 && !d.IsClosed(), "other connections have their own life")
		rt.Assert(lf.ctxs[1].IsOnline(), "other connections have their own life")
	}
	rt.Reach("ended")
}

// C18_raw: a raw connection whose handler returns at once, reads until the end, closes its context, panics, or whose middleware aborts or panics.
func C18_raw() {
	quiet()
	how := rt.Choose("how", 6)
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	lf := &life{}
	lf.hook(srv)
	var req *tcpx.Context
	srv.UseGlobal(func(c *tcpx.Context) {
		rt.Assert(lf.opened == 1 && c.IsOnline(), "connect callback first")
		req = c
		c.Online("bob")
		switch how {
		case 4:
			c.Abort()
		case 5:
			panic("middleware")
		}
	})
	srv.HandleRaw = func(c *tcpx.Context) {
		switch how {
		case 1:
			b := make([]byte, 8)
			for {
				if _, e := c.ConnReader.Read(b); e != nil {
					break
				}
			}
		case 2:
			c.CloseConn()
		case 3:
			panic("handler")
		}
	}
	go srv.ListenAndServeRaw("tcp", ":1")
	rt.Idle()
	l := rt.OpenListener("tcp", ":1")
	c := l.Connect("9.9.9.9:1")
	c.Send(rt.Bytes("b", 3))
	rt.Idle()
	if how == 1 {
		rt.Assert(lf.closed == 0 && !c.IsClosed() && req.IsOnline(), "open while its handler runs")
		c.SendEOF()
		rt.Idle()
	}
	rt.Assert(lf.opened == 1 && lf.closed == 1, "the callbacks run exactly once")
	rt.Assert(c.IsClosed(), "the socket is closed")
	rt.Assert(req.IsOffline() && lf.ctxs[0].IsOffline() && !req.IsOnline(), "every context reports offline")
	rt.Assert(req.GetPoolRef().GetClientPool("bob") == nil, "gone from the pool")
	rt.Reach("ended")
}
