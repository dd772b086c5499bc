package zzvh

import (
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

// poolModel is the sequential reference of the pool over two connections.
type poolModel struct {
	owner  [2]int // name -> connection+1
	cname  [2]int // connection -> name+1
	closed [2]bool
	got    [2]int // frames delivered
}

func (m *poolModel) leave(i int) {
	if n := m.cname[i]; n != 0 && m.owner[n-1] == i+1 {
		m.owner[n-1] = 0
	}
}

const poolOps = 12

// apply performs an operation and returns its result: 0 ok, 1 error, 10+i found connection i, 20 found nothing.
func (m *poolModel) apply(op int) int {
	switch {
	case op < 4: // online of connection op&1 as name op>>1
		i, n := op&1, op>>1
		if m.cname[i] != n+1 {
			m.leave(i)
		}
		m.cname[i] = n + 1
		if m.closed[i] {
			return 1
		}
		m.owner[n] = i + 1
		return 0
	case op < 6:
		i := op - 4
		if m.cname[i] == 0 {
			return 1
		}
		m.leave(i)
		return 0
	case op < 8:
		i := op - 6
		m.closed[i] = true
		m.leave(i)
		return 0
	case op < 10: // send to name
		o := m.owner[op-8]
		if o == 0 {
			return 1
		}
		m.got[o-1]++
		return 0
	}
	o := m.owner[op-10]
	if o == 0 {
		return 20
	}
	return 10 + o - 1
}

// linear tells whether the results and the final state are those of some order of the operations.
func linear(m poolModel, ops, res []int, done []bool, left int, same func(*poolModel) bool) bool {
	if left == 0 {
		return same(&m)
	}
	for i := range ops {
		if done[i] {
			continue
		}
		n := m
		if n.apply(ops[i]) != res[i] {
			continue
		}
		done[i] = true
		ok := linear(n, ops, res, done, left-1, same)
		done[i] = false
		if ok {
			return true
		}
	}
	return false
}

func poolConc(nops, preempt int) {
	quiet()
	w := newPoolWorld(2)
	names := []string{"a", "b"}
	var m poolModel
	pool := w.ctxs[0].GetPoolRef()
	switch rt.Choose("before", 4) {
	case 0:
	case 1:
		w.name = "a"
		w.send(0, 1)
		m.apply(0)
	case 2:
		w.name = "a"
		w.send(0, 1)
		m.apply(0)
		w.name = "b"
		w.send(1, 1)
		m.apply(3)
	case 3:
		w.name = "a"
		w.send(0, 1)
		m.apply(0)
		w.send(1, 1)
		m.apply(1)
	}
	ops := make([]int, nops)
	for i := range ops {
		ops[i] = rt.Choose("op", poolOps)
		if i > 0 {
			rt.Assume(ops[i] >= ops[i-1])
		}
	}
	res := make([]int, nops)
	toRes := func(e error) int {
		if e != nil {
			return 1
		}
		return 0
	}
	var fs []func()
	for i := range ops {
		i, op := i, ops[i]
		fs = append(fs, func() {
			switch {
			case op < 4:
				res[i] = toRes(w.reqs[op&1].Online(names[op>>1]))
			case op < 6:
				res[i] = toRes(w.reqs[op-4].Offline())
			case op < 8:
				w.reqs[op-6].CloseConn()
			case op < 10:
				res[i] = toRes(w.ctxs[1].SendToUsername(names[op-8], 9, "m"))
			default:
				x := pool.GetClientPool(names[op-10])
				res[i] = 20
				for k := range w.conns {
					if x != nil && x.Conn == w.conns[k] {
						res[i] = 10 + k
					}
				}
			}
		})
	}
	rt.Races()
	rt.Explore(preempt)
	rt.Par(fs...)
	rt.Explore(0)
	rt.Idle()
	same := func(m *poolModel) bool {
		for n := range names {
			x := pool.GetClientPool(names[n])
			if (x != nil) != (m.owner[n] != 0) {
				return false
			}
			if x != nil && x.Conn != w.conns[m.owner[n]-1] {
				return false
			}
		}
		for i := range w.conns {
			if w.conns[i].IsClosed() != m.closed[i] || len(w.conns[i].Written()) != m.got[i] {
				return false
			}
			if w.reqs[i].IsOffline() != m.closed[i] || w.ctxs[i].IsOnline() == m.closed[i] {
				return false
			}
		}
		return true
	}
	rt.Assert(linear(m, ops, res, make([]bool, nops), nops, same), "concurrent pool operations behave like some sequential order")
	rt.Reach("done")
}

// C26_pool: any 2 concurrent operations out of online (two names), offline, close, send and lookup over two connections, from four initial pool states, with up to
// 2 (thorough 5) preemptions at synchronisation operations: results, deliveries and the final pool are those of some sequential order; no data race, no deadlock.
func C26_pool() { poolConc(2, 2+3*rt.Tier()) }

// C26_pool3: any 3 such concurrent operations with 1 (thorough 2) preemptions.
func C26_pool3() { poolConc(3, 1+rt.Tier()) }

// ctxConc runs n operations on the contexts of one connection at the same time.
func ctxConc(nops, preempt int) {
	quiet()
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	mode := rt.Choose("watchers", 3)
	if mode > 0 {
		srv.HeartBeatModeDetail(true, 1<<50, false, 77)
	}
	if mode > 1 {
		srv.WithAuthDetail(true, 1<<52, false, 78, func(c *tcpx.Context) {})
		srv.WithBroadCastSignal(true)
	}
	var conn *tcpx.Context
	closed := 0
	srv.OnConnect = func(c *tcpx.Context) { conn = c }
	srv.OnClose = func(c *tcpx.Context) { closed++ }
	var reqs []*tcpx.Context
	srv.AddHandler(4, func(c *tcpx.Context) { reqs = append(reqs, c) })
	c := up(srv).Connect("p:1")
	c.Send(idFrame(4, []byte("1")))
	rt.Idle()
	c.Send(idFrame(4, []byte("2")))
	rt.Idle()
	rt.Assert(len(reqs) == 2 && conn != nil, "two messages are handled")
	x, y := reqs[0], reqs[1]
	x.SetCtxPerConn("k", 0)
	const n = 14
	ops := make([]int, nops)
	has := make([]int, n)
	for i := range ops {
		ops[i] = rt.Choose("op", n)
		if i > 0 {
			rt.Assume(ops[i] >= ops[i-1])
		}
		has[ops[i]]++
	}
	rt.Assume(has[13] <= 1)
	saw := -1
	replies := 0
	errs := make([]error, nops)
	chans := make([]chan int, nops)
	run := func(i, op int) {
		switch op {
		case 0:
			x.SetCtxPerConn("k", 1)
		case 1:
			y.SetCtxPerConn("k", 2)
		case 2:
			v, ok := y.GetCtxPerConn("k")
			k, isInt := v.(int)
			rt.Assert(ok && isInt, "a connection value is never lost")
			saw = k
		case 3:
			x.CloseConn()
		case 4:
			conn.CloseConn()
		case 5:
			if i == 0 {
				chans[i] = x.HeartBeatChan()
			} else {
				chans[i] = y.HeartBeatChan()
			}
		case 6:
			x.RecvHeartBeat()
		case 7:
			errs[i] = x.JSON(9, "m")
		case 8:
			errs[i] = y.Reply(9, "m")
		case 9:
			on, off := x.IsOnline(), y.IsOffline()
			rt.Assert(on || off || has[3]+has[4] > 0, "a connection is online or offline")
		case 10:
			errs[i] = conn.Online("u")
		case 11:
			x.SetCtxPerRequest("q", 1)
			_, ok := y.GetCtxPerRequest("q")
			rt.Assert(!ok, "request values stay with their message")
		case 12:
			y.RecvAuthPass()
		case 13:
			c.Send(idFrame(4, []byte("3")))
		}
	}
	var fs []func()
	for i := range ops {
		i, op := i, ops[i]
		if op == 7 || op == 8 {
			replies++
		}
		fs = append(fs, func() { run(i, op) })
	}
	rt.Races()
	rt.Explore(preempt)
	rt.Par(fs...)
	rt.Explore(0)
	rt.Idle()
	for i := range chans {
		if chans[i] != nil {
			rt.Assert(chans[i] == conn.HeartBeatChan() && chans[i] == x.HeartBeatChan(), "all contexts of a connection share the heartbeat channel")
		}
	}
	v, _ := conn.GetCtxPerConn("k")
	k, _ := v.(int)
	switch {
	case has[0] > 0 && has[1] > 0:
		rt.Assert(k == 1 || k == 2, "a connection value is the one set last")
	case has[0] > 0:
		rt.Assert(k == 1, "a connection value is the one set last")
	case has[1] > 0:
		rt.Assert(k == 2, "a connection value is the one set last")
	default:
		rt.Assert(k == 0, "a connection value stays as it was")
	}
	if has[2] > 0 {
		rt.Assert(saw == 0 || saw == 1 && has[0] > 0 || saw == 2 && has[1] > 0, "a connection value read is one that was set")
	}
	end := has[3]+has[4] > 0
	rt.Assert(c.IsClosed() == end, "the connection is closed exactly when a context closed it")
	if end {
		rt.Assert(closed == 1 && x.IsOffline() && y.IsOffline() && !conn.IsOnline(), "a closed connection is offline everywhere and its close callback ran once")
		rt.Assert(conn.GetPoolRef().GetClientPool("u") == nil, "a closed connection is not in the pool")
		rt.Reach("closed")
	} else {
		rt.Assert(x.IsOnline() && y.IsOnline(), "an open connection is online")
		rt.Assert((conn.GetPoolRef().GetClientPool("u") != nil) == (has[10] > 0), "it is in the pool when it went online")
	}
	good := 0
	for i, op := range ops {
		if op == 7 || op == 8 {
			if errs[i] == nil {
				good++
			} else {
				rt.Assert(end, "a reply on an open connection succeeds")
			}
		}
	}
	w := c.Written()
	rt.Assert(len(w) == good, "each successful reply is one write")
	for _, b := range w {
		rt.AssertBytesEq(b, idFrame(9, []byte(`"m"`)), "concurrent replies do not mix")
	}
	if has[13] > 0 && !end {
		rt.Assert(len(reqs) == 2+has[13], "a message arriving meanwhile is handled")
		b, e := reqs[2].RawStream()
		rt.Assert(e == nil, "it has its stream")
		rt.AssertBytesEq(b, []byte("3"), "it is the message sent")
	}
	b, e := x.RawStream()
	rt.Assert(e == nil, "the first message keeps its stream")
	rt.AssertBytesEq(b, []byte("1"), "the first message is not disturbed")
	rt.Reach("done")
}

// C26_ctx: any 2 concurrent operations on the contexts of one connection (connection values, request values, close by two contexts, heartbeat channel and signal, replies,
// online state, going online, auth signal, a further message arriving), with no watchers, heartbeat, or heartbeat, auth and broadcast watchers, up to
// 1 (thorough 2) preemptions: no data race, deadlock or panic, and outcomes of some sequential order.
func C26_ctx() { ctxConc(2, 1+rt.Tier()) }

// C26_ctx3: any 3 of them without preemption inside operations (every order of operations and watcher wake-ups at blocking points; thorough: 1 preemption).
func C26_ctx3() {
	if rt.Tier() == 0 {
		rt.Opt("maxSteps", 400000)
	}
	ctxConc(3, rt.Tier())
}

// C26_stop: any 2 of Stop(false), Stop(true), State, a pooled connection closing, going online, being sent to, a message arriving and a client connecting, at the same time, with
// and without broadcast signals and heartbeats, up to 2 (thorough 3) preemptions: no deadlock, panic or data race; exactly one Stop succeeds and does what it promises.
func C26_stop() {
	quiet()
	sig := rt.Bool("signals")
	srv := tcpx.NewTcpX(nil).WithBuiltInPool(true)
	if sig {
		srv.WithBroadCastSignal(true)
	}
	if rt.Bool("heartbeat") {
		srv.HeartBeatModeDetail(true, 1<<50, false, 77)
	}
	var ctxs []*tcpx.Context
	srv.OnConnect = func(c *tcpx.Context) { ctxs = append(ctxs, c) }
	handled := 0
	srv.AddHandler(4, func(c *tcpx.Context) { handled++ })
	l := up(srv)
	c0, c1 := l.Connect("p:0"), l.Connect("p:1")
	rt.Idle()
	rt.Assert(len(ctxs) == 2, "both connections are accepted")
	rt.Assert(ctxs[0].Online("u") == nil, "online")
	pool := ctxs[0].GetPoolRef()
	const n = 8
	ops := []int{rt.Choose("op0", n), rt.Choose("op1", n)}
	rt.Assume(ops[0] <= ops[1] && ops[0] <= 1)
	has := make([]int, n)
	stopped := 0
	all := false
	var fs []func()
	for i := range ops {
		op := ops[i]
		has[op]++
		fs = append(fs, func() {
			switch op {
			case 0:
				if srv.Stop(false) == nil {
					stopped++
				}
			case 1:
				if srv.Stop(true) == nil {
					stopped++
					all = true
				}
			case 2:
				srv.State()
			case 3:
				ctxs[0].CloseConn()
			case 4:
				ctxs[1].Online("v")
			case 5:
				ctxs[1].SendToUsername("u", 9, "m")
			case 6:
				c1.Send(idFrame(4, nil))
			case 7:
				rt.N.TryConnect(l, "p:2")
			}
		})
	}
	rt.Races()
	rt.Explore(2 + rt.Tier())
	rt.Par(fs...)
	rt.Explore(0)
	rt.Idle()
	rt.Assert(stopped == 1, "exactly one Stop succeeds")
	rt.Assert(srv.State() == tcpx.STATE_STOP, "the server is stopped")
	rt.Assert(l.IsClosed(), "the listener is closed")
	rt.Assert(c0.IsClosed() == (all || has[3] > 0), "a pooled connection is closed exactly when asked for")
	if sig {
		rt.Assert(c1.IsClosed() == all, "with broadcast signals every connection is closed, otherwise none")
	} else if has[4] == 0 {
		rt.Assert(!c1.IsClosed(), "a connection outside the pool stays")
	}
	rt.Assert((pool.GetClientPool("u") != nil) == !c0.IsClosed(), "the pool holds exactly live connections")
	x := pool.GetClientPool("v")
	rt.Assert(x == nil || has[4] > 0 && !c1.IsClosed(), "the pool holds exactly live connections")
	if has[6] > 0 && !all {
		rt.Assert(handled == 1, "messages of remaining connections are handled")
	}
	rt.Assert(len(c0.Written()) <= has[5], "a send is delivered at most once")
	rt.Reach("stopped")
}

// C26_messages: two messages of one connection and one of another, arriving in every order, with up to 2 (thorough 3) preemptions of the goroutines that handle them:
// each runs its own chain with its own abort, request values and stream.
func C26_messages() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	type rec struct {
		t   []int
		bad bool
	}
	seen := [4]rec{}
	num := func(c *tcpx.Context) int {
		b, e := c.RawStream()
		if e != nil || len(b) != 1 {
			return 3
		}
		return int(b[0] - '0')
	}
	abort := rt.Choose("abort", 4) // which message aborts in its middleware
	srv.UseGlobal(func(c *tcpx.Context) {
		i := num(c)
		_, had := c.GetCtxPerRequest("r")
		seen[i].bad = seen[i].bad || had
		c.SetCtxPerRequest("r", i)
		seen[i].t = append(seen[i].t, 1)
		if i == abort {
			c.Abort()
		}
	})
	h := func(k int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			i := num(c)
			v, ok := c.GetCtxPerRequest("r")
			n, isInt := v.(int)
			seen[i].bad = seen[i].bad || !ok || !isInt || n != i
			seen[i].t = append(seen[i].t, k)
			c.SetCtxPerConn(i, i)
			c.JSON(int32(i), i)
		}
	}
	srv.AddHandler(1, h(2), h(3))
	srv.Any("/u", h(4))
	l := up(srv)
	c1, c2 := l.Connect("p:1"), l.Connect("p:2")
	rt.Idle()
	rt.Races()
	rt.Opt("noBubble", 1)
	rt.Explore(2 + rt.Tier())
	c1.Send(cat(idFrame(1, []byte("0")), urlFrame(1, "/u", []byte("1"))))
	c2.Send(idFrame(1, []byte("2")))
	rt.Idle()
	rt.Explore(0)
	want := [][]int{{1, 2, 3}, {1, 4}, {1, 2, 3}}
	w1, w2 := 3, 2
	for i := 0; i < 3; i++ {
		if i == abort {
			want[i] = []int{1}
		}
		rt.Assert(sameInts(seen[i].t, want[i]), "messages handled at the same time run their own chains")
		rt.Assert(!seen[i].bad, "messages handled at the same time have their own request values")
	}
	rt.Assert(len(seen[3].t) == 0, "every step sees its own message")
	switch abort {
	case 0:
		w1 -= 2
	case 1:
		w1--
	case 2:
		w2 -= 2
	}
	rt.Assert(len(c1.Written()) == w1 && len(c2.Written()) == w2, "replies go to the connection of their message")
	rt.Reach("done")
}
