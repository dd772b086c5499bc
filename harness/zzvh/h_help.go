package zzvh

import (
	"errors"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

var errPanic = errors.New("panic value")

// C32_defer: a function that returns or panics with any string of 0..3 bytes, any number, an error, or a run-time error, and 0..4 panic handlers: it runs once, each handler gets the value once, in order.
func C32_defer() {
	quiet()
	n := rt.Choose("handlers", 5)
	kind := rt.Choose("kind", 6)
	s := rt.Str("s", rt.Choose("len", 4))
	x := rt.I32("x")
	runs := 0
	var got []interface{}
	var order []int
	var hs []func(interface{})
	for i := 0; i < n; i++ {
		i := i
		hs = append(hs, func(v interface{}) {
			got = append(got, v)
			order = append(order, i)
		})
	}
	idx := 5
	escaped := panics(func() {
		tcpx.Defer(func() {
			runs++
			switch kind {
			case 1:
				panic(s)
			case 2:
				panic(x)
			case 3:
				panic(errPanic)
			case 4:
				_ = got[idx]
			case 5:
				var m map[string]int
				m["a"] = 1
			}
		}, hs...)
	})
	rt.Assert(!escaped, "no panic escapes")
	rt.Assert(runs == 1, "the function runs once")
	if kind == 0 {
		rt.Assert(len(got) == 0, "without a panic no handler runs")
		rt.Reach("returned")
		return
	}
	rt.Assert(len(got) == n, "every handler runs once")
	for i := range got {
		rt.Assert(order[i] == i, "in order")
		switch kind {
		case 1:
			v, ok := got[i].(string)
			rt.Assert(ok && v == s, "with the panic value")
		case 2:
			v, ok := got[i].(int32)
			rt.Assert(ok && v == x, "with the panic value")
		case 3:
			rt.Assert(got[i] == interface{}(errPanic), "with the panic value")
		default:
			_, ok := got[i].(error)
			rt.Assert(ok, "with the panic value")
		}
	}
	rt.Reach("recovered")
}

// C32_close: CloseChanel of an open, a closed or a nil channel, or of a function panicking with any string of 2 bytes, once or twice in a row.
func C32_close() {
	quiet()
	ch := make(chan int, 1)
	kind := rt.Choose("kind", 4)
	var null chan int
	runs := 0
	s := rt.Str("s", 2)
	f := func() {
		runs++
		switch kind {
		case 0:
			close(ch)
		case 1:
			close(null)
		case 2:
			panic(s)
		}
	}
	times := 1 + rt.Choose("again", 2)
	rt.Assert(!panics(func() {
		for i := 0; i < times; i++ {
			tcpx.CloseChanel(f)
		}
	}), "no panic escapes")
	rt.Assert(runs == times, "the function runs once per call")
	closed := false
	select {
	case _, ok := <-ch:
		closed = !ok
	default:
	}
	rt.Assert(closed == (kind == 0), "an open channel is closed")
	rt.Reach("closed")
}

// C32_conc: three goroutines close the same channel through CloseChanel, in any order with 3 (thorough 4) preemptions: all return, the channel is closed.
func C32_conc() {
	quiet()
	ch := make(chan int)
	ok := make([]bool, 3)
	var fs []func()
	for i := range ok {
		i := i
		fs = append(fs, func() { ok[i] = !panics(func() { tcpx.CloseChanel(func() { close(ch) }) }) })
	}
	rt.Explore(3 + rt.Tier())
	rt.Par(fs...)
	rt.Assert(ok[0] && ok[1] && ok[2], "no panic escapes")
	_, open := <-ch
	rt.Assert(!open, "the channel is closed")
	rt.Reach("closed")
}

// C33_lock: every history of 3 (thorough 4) registrations (message ID or URL pattern, any ID, 2 patterns) (through the server or its table) on two servers with locking in between: locked tables refuse and keep what they had; a
// message to every route runs exactly its own handler.
func C33_lock() {
	quiet()
	tr := &trace{}
	srvs := []*tcpx.TcpX{tcpx.NewTcpX(nil), tcpx.NewTcpX(nil)}
	var ids, urls [2]map[int]int
	for i := range ids {
		ids[i], urls[i] = map[int]int{}, map[int]int{}
	}
	base := rt.I32("id")
	names := []string{"/a", "/b"}
	var locked [2]bool
	direct := rt.Bool("direct")
	for k := 0; k < 3+rt.Tier(); k++ {
		which := rt.Choose("table", 2)
		w := 0
		if which == 1 {
			w = 1
		}
		srv := srvs[w]
		mark := 10 + k
		op := rt.Choose("op", 5)
		switch op {
		case 0, 1:
			n := 0
			if op == 1 {
				n = 1
			}
			if _, dup := ids[w][n]; dup && !locked[w] {
				rt.Assume(false)
			}
			p := panics(func() {
				if direct {
					srv.Mux.AddHandleFunc(base+int32(n), tr.mw(mark))
					srv.Mux.AddMessageIDAnchor(tcpx.NewMessageIDAnchor(base+int32(n), srv.Mux.CurrentAnchorIndex()))
				} else {
					srv.AddHandler(base+int32(n), tr.mw(mark))
				}
			})
			rt.Assert(p == locked[w], "a locked table refuses message IDs, an open one does not")
			if !p {
				ids[w][n] = mark
			} else {
				rt.Reach("refused id")
			}
		case 2, 3:
			n := op - 2
			if _, dup := urls[w][n]; dup && !locked[w] {
				rt.Assume(false)
			}
			var e error
			if !direct {
				p := panics(func() { srv.Any(names[n], tr.mw(mark)) })
				rt.Assert(!p || locked[w], "an open table takes URL patterns")
				if !locked[w] {
					urls[w][n] = mark
				}
				continue
			}
			p := panics(func() { e = srv.Mux.Any(names[n], tr.mw(mark)) })
			rt.Assert(!p && (e != nil) == locked[w], "a locked table refuses URL patterns with an error, an open one does not")
			if e == nil {
				urls[w][n] = mark
				srv.Mux.AddURLAnchor(tcpx.NewUrlPatternAnchor(names[n], srv.Mux.CurrentAnchorIndex()))
			} else {
				rt.Reach("refused url")
			}
		case 4:
			srv.Mux.AllowAdd = false
			locked[w] = true
		}
	}
	for w, srv := range srvs {
		go srv.ListenAndServe("tcp", []string{":1", ":2"}[w])
		rt.Idle()
		c := rt.OpenListener("tcp", []string{":1", ":2"}[w]).Connect("9.9.9.9:1")
		for n := 0; n < 2; n++ {
			tr.t = nil
			c.Send(idFrame(base+int32(n), nil))
			rt.Idle()
			if m, ok := ids[w][n]; ok {
				rt.Assert(sameInts(tr.t, []int{m}), "a message ID runs exactly its handler")
			} else {
				rt.Assert(len(tr.t) == 0, "a refused message ID runs nothing")
			}
			tr.t = nil
			c.Send(uFrame(names[n], nil))
			rt.Idle()
			if m, ok := urls[w][n]; ok {
				rt.Assert(sameInts(tr.t, []int{m}), "a URL pattern runs exactly its handler")
			} else {
				rt.Assert(len(tr.t) == 0, "a refused URL pattern runs nothing")
			}
		}
	}
	rt.Reach("served")
}

// C33_url: a stand-alone URL table: registering, refusing duplicates when asked to, locking at any point of 4 (thorough 5) operations.
func C33_url() {
	quiet()
	m := tcpx.NewURLMux()
	names := []string{"/a", "/b"}
	locked, strict := false, false
	var have [2]bool
	h := func(c *tcpx.Context) {}
	for k := 0; k < 4+rt.Tier(); k++ {
		switch op := rt.Choose("op", 4); op {
		case 0, 1:
			var e error
			p := panics(func() { e = m.AddURLPatternHandler(names[op], h) })
			switch {
			case locked:
				rt.Assert(!p && e != nil, "a locked table refuses URL patterns with an error")
				rt.Reach("refused")
			case strict && have[op]:
				rt.Assert(p, "a strict table refuses a second handler")
				rt.Reach("conflict")
			default:
				rt.Assert(!p && e == nil, "an open table takes URL patterns")
				have[op] = true
			}
		case 2:
			e := m.PanicOnExistRouter()
			rt.Assert((e != nil) == locked, "a locked table cannot be changed")
			if !locked {
				strict = true
			}
		case 3:
			m.LockWrite()
			locked = true
		}
	}
}

// C34_once: one-shot calls to any 1-letter address, any message ID, a body that is any 2-letter string, none or cannot be encoded, a failing dial, a write failing with any kind of error, having taken any part of the frame.
func C34_once() {
	quiet()
	id := rt.I32("id")
	addr := rt.Str("addr", 1)
	s := rt.Str("s", 2)
	letters(s)
	var body interface{} = s
	bad := false
	bb := jsonOf(s)
	switch rt.Choose("body", 3) {
	case 1:
		body, bb = nil, nil
	case 2:
		body, bad = make(chan int), true
	}
	fault := rt.Choose("fault", 3)
	var dialled *rt.FConn
	rt.N.OnDial = func(c *rt.FConn) {
		rt.Assert(dialled == nil, "one connection is opened")
		dialled = c
		if fault == 2 {
			why := writeError(rt.Choose("errkind", 5))
			part := rt.Int("part", 0, 16)
			c.WriteN = func(p []byte) (int, error) { return part, why }
		}
	}
	if fault == 1 {
		rt.N.DialErr = errBroken
	}
	e := tcpx.TCPCallOnceJSON("tcp", addr, int(id), body)
	rt.Assert((e != nil) == (bad || fault != 0), "failures are reported as errors, and nothing else is")
	if fault == 1 {
		rt.Assert(dialled == nil, "no connection")
		rt.Reach("no connection")
		return
	}
	if dialled == nil {
		rt.Assert(bad, "a connection is opened")
		return
	}
	rt.Assert(dialled.IsClosed(), "the connection is closed afterwards")
	rt.Assert(dialled.RemoteAddr().String() == addr, "to the given address")
	w := dialled.Written()
	switch {
	case bad:
		rt.Assert(len(w) == 0, "nothing is written")
		rt.Reach("bad body")
	case fault == 0:
		rt.Assert(len(w) == 1, "one frame is written")
		rt.AssertBytesEq(w[0], frame(id, []byte("null"), bb), "with the given message")
		rt.Reach("sent")
	default:
		rt.Assert(len(w) <= 1, "a failed write is not repeated")
		rt.Reach("failed")
	}
}

// C34_write: a sequence of 3 messages over one connection, each with any ID and a body as above, the second one failing to be written or not: one frame each, the connection stays open.
func C34_write() {
	quiet()
	c := rt.NewConn("peer")
	n := 0
	fail := rt.Bool("fail")
	c.WriteN = func(p []byte) (int, error) {
		n++
		if fail && n == 2 {
			return 0, errBroken
		}
		return len(p), nil
	}
	want := 0
	for i := 0; i < 3; i++ {
		id := rt.I32("id")
		s := rt.Str("s", 1)
		letters(s)
		var body interface{} = s
		bb := jsonOf(s)
		bad := false
		switch rt.Choose("body", 3) {
		case 1:
			body, bb = nil, nil
		case 2:
			body, bad = make(chan int), true
		}
		lost := fail && n == 1 && !bad
		e := tcpx.WriteJSON(c, id, body)
		rt.Assert((e != nil) == (bad || lost), "failures are reported as errors, and nothing else is")
		if e == nil {
			want++
			w := c.Written()
			rt.Assert(len(w) == want, "one frame per message")
			rt.AssertBytesEq(w[want-1], frame(id, []byte("null"), bb), "with the given message")
			rt.Reach("sent")
		}
		rt.Assert(len(c.Written()) == want, "nothing else is written")
	}
	rt.Assert(!c.IsClosed(), "the connection stays open")
}

// C34_datagram: two datagrams of any length up to the buffer (the default one or any of 1..70000 bytes) and any content from two senders, or a failing socket: each read returns exactly the next one and its sender; the bytes of the first stay as they were.
func C34_datagram() {
	quiet()
	pc, _ := rt.ListenPacket("udp", ":1")
	p := pc.(*rt.FPacketConn)
	max := 4096
	var args []int
	if rt.Bool("sized") {
		max = rt.Int("max", 1, sizeMax)
		args = []int{max}
	}
	n1, n2 := rt.Int("n1", 1, sizeMax), rt.Int("n2", 1, sizeMax)
	rt.Assume(n1 <= max && n2 <= max)
	d1, d2 := rt.Big("d1", n1), rt.Big("d2", n2)
	from := rt.Str("from", 2)
	p.Deliver(d1, from)
	p.Deliver(d2, "b")
	b1, a1, e1 := tcpx.ReadAllUDP(pc, args...)
	rt.Assert(e1 == nil, "read")
	rt.AssertBytesEq(b1, d1, "exactly the next datagram")
	rt.Assert(a1.String() == from, "and its sender")
	b2, a2, e2 := tcpx.ReadAllUDP(pc, args...)
	rt.Assert(e2 == nil, "read")
	rt.AssertBytesEq(b2, d2, "exactly the next datagram")
	rt.Assert(a2.String() == "b", "and its sender")
	rt.AssertBytesEq(b1, d1, "the first one stays as it was")
	p.DeliverErr(errBroken)
	b3, _, e3 := tcpx.ReadAllUDP(pc, args...)
	rt.Assert(e3 != nil && len(b3) == 0, "a failure is an error and no data")
	rt.Reach("read")
}
