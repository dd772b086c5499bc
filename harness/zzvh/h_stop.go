package zzvh

import (
	"os"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

type ep struct{ kind, network, addr string }

var setups = [][]ep{
	{{"s", "tcp", ":1"}},
	{{"s", "tcp", ":1"}, {"s", "tcp", ":2"}},
	{{"s", "tcp4", ":1"}, {"p", "udp", ":1"}},
	{{"r", "tcp", ":1"}},
	{{"p", "udp", ":1"}},
	{{"s", "unix", "/x"}, {"r", "tcp", ":3"}, {"p", "udp4", ":3"}},
	{{"s", "tcp", ":1"}, {"s", "tcp6", ":1"}},
}

// stopWorld is a server with several endpoints.
type stopWorld struct {
	srv     *tcpx.TcpX
	eps     []ep
	handled int
	rawRead int
}

func (w *stopWorld) begin() {
	w.srv.AddHandler(1, func(c *tcpx.Context) { w.handled++ })
	w.srv.AddHandler(2, func(c *tcpx.Context) { c.Online("bob") })
	w.srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 1)
		for {
			if _, e := c.ConnReader.Read(b); e != nil {
				return
			}
			if b[0] == 2 {
				c.Online("bob")
			} else {
				w.handled++
			}
		}
	}
	for i := range w.eps {
		e := w.eps[i]
		switch e.kind {
		case "r":
			go w.srv.ListenAndServeRaw(e.network, e.addr)
		case "s":
			go w.srv.ListenAndServe(e.network, e.addr)
		case "p":
			go w.srv.ListenAndServe(e.network, e.addr)
		}
		rt.Idle()
	}
}

// listening asserts that every endpoint is (not) open, exactly once.
func (w *stopWorld) listening(open bool, label string) {
	n := 0
	for _, l := range rt.N.Listeners {
		if !l.IsClosed() {
			n++
		}
	}
	for _, p := range rt.N.Packets {
		if !p.IsClosed() {
			n++
		}
	}
	want := 0
	if open {
		want = len(w.eps)
	}
	rt.Assert(n == want, label)
	for _, e := range w.eps {
		ok := false
		if e.kind == "p" {
			ok = rt.OpenPacket(e.network, e.addr) != nil
		} else {
			ok = rt.OpenListener(e.network, e.addr) != nil
		}
		rt.Assert(ok == open, label)
	}
}
func (w *stopWorld) msg(e ep, id int32) []byte {
	if e.kind == "r" {
		return []byte{byte(id)}
	}
	return idFrame(id, nil)
}

// serves asserts that every endpoint serves new clients.
func (w *stopWorld) serves(label string) {
	for _, e := range w.eps {
		n := w.handled
		if e.kind == "p" {
			rt.OpenPacket(e.network, e.addr).Deliver(idFrame(1, nil), "9.9.9.9:7")
		} else {
			rt.OpenListener(e.network, e.addr).Connect("9.9.9.9:7").Send(w.msg(e, 1))
		}
		rt.Idle()
		rt.Assert(w.handled == n+1, label)
	}
}

// C16_cycles: 7 sets of endpoints (framed, raw, packet, several of them), pool/broadcast on or off, and 2 (thorough 3) rounds of Stop (closing all connections
// or not) and Start or of Restart: exactly the promised listeners and connections are closed, everything is served again, repeated calls are errors.
func C16_cycles() {
	quiet()
	w := &stopWorld{srv: tcpx.NewTcpX(nil), eps: setups[rt.Choose("setup", len(setups))]}
	pool, sig := rt.Bool("pool"), rt.Bool("signals")
	if pool {
		w.srv.WithBuiltInPool(true)
	}
	if sig {
		w.srv.WithBroadCastSignal(true)
	}
	var ref *tcpx.ClientPool
	w.srv.OnConnect = func(c *tcpx.Context) { ref = c.GetPoolRef() }
	rt.Assert(w.srv.Stop(true) != nil, "a server that does not run cannot be stopped")
	w.begin()
	w.listening(true, "every listener is open")
	for k := 0; k < 2+rt.Tier(); k++ {
		w.serves("a running server serves")
		opened := rt.N.Opened
		rt.Assert(w.srv.Start() != nil, "a running server cannot be started")
		rt.Idle()
		rt.Assert(rt.N.Opened == opened, "starting a running server changes nothing")
		w.listening(true, "starting a running server changes nothing")
		var c1, c2 *rt.FConn
		e := w.eps[0]
		if e.kind != "p" {
			l := rt.OpenListener(e.network, e.addr)
			c1, c2 = l.Connect("9.9.9.9:1"), l.Connect("9.9.9.9:2")
			rt.Idle()
			c1.Send(w.msg(e, 2))
			rt.Idle()
		}
		all := rt.Bool("all")
		restart := rt.Bool("restart")
		if restart {
			ran := 0
			rt.Assert(w.srv.Restart(all, func() { ran++ }) == nil, "restarting a running server succeeds")
			rt.Assert(ran == 1, "the function before the start runs once")
		} else {
			rt.Assert(w.srv.Stop(all) == nil, "stopping a running server succeeds")
		}
		rt.Idle()
		if !restart {
			w.listening(false, "stop closes every listener")
		}
		if c1 != nil {
			n := w.handled
			gone1 := all && (sig || pool)
			gone2 := all && sig
			rt.Assert(c1.IsClosed() == gone1, "a pooled connection is closed exactly if promised")
			rt.Assert(c2.IsClosed() == gone2, "another connection is closed exactly if promised")
			if pool {
				rt.Assert((ref.GetClientPool("bob") == nil) == gone1, "the pool is emptied exactly if promised")
			}
			for _, c := range []*rt.FConn{c1, c2} {
				if !c.IsClosed() {
					c.Send(w.msg(e, 1))
					n++
				}
			}
			rt.Idle()
			rt.Assert(w.handled == n, "connections that were not closed keep working")
			if !c2.IsClosed() {
				rt.Reach("kept")
			} else {
				rt.Reach("closed")
			}
			c1.SendEOF()
			c2.SendEOF()
			rt.Idle()
		}
		if !restart {
			rt.Assert(w.srv.Stop(rt.Bool("again")) != nil, "a stopped server cannot be stopped")
			rt.Idle()
			w.listening(false, "stopping a stopped server changes nothing")
			rt.Assert(w.srv.Start() == nil, "a stopped server can be started")
			rt.Idle()
		}
		w.listening(true, "every former listener is open again, once")
		rt.Reach("again")
	}
	w.serves("a restarted server serves")
	rt.Assert(rt.Spins() == 0, "no read loop is left spinning")
}

// C16_watched: connections with a heartbeat or an auth watch: Stop(false) leaves them working, Stop(true) with broadcast closes them; after a restart a new connection is
// watched as before (any intervals up to 1000 ticks).
func C16_watched() {
	quiet()
	d := time.Duration(rt.Int("interval", 10, 1000))
	w := &stopWorld{srv: tcpx.NewTcpX(nil).WithBroadCastSignal(true), eps: setups[0]}
	auth := rt.Bool("auth")
	if auth {
		w.srv.WithAuthDetail(true, d, false, 50, func(c *tcpx.Context) { c.RecvAuthPass() })
	} else {
		w.srv.HeartBeatMode(true, d)
	}
	w.begin()
	c := rt.OpenListener("tcp", ":1").Connect("9.9.9.9:1")
	rt.Idle()
	all := rt.Bool("all")
	w.srv.Stop(all)
	rt.Idle()
	rt.Assert(c.IsClosed() == all, "closed exactly if promised")
	if !all {
		if auth {
			c.Send(idFrame(50, nil))
		}
		rt.Idle()
		n := w.handled
		c.Send(idFrame(1, nil))
		time.Sleep(d - 1)
		rt.Idle()
		rt.Assert(w.handled == n+1 && !c.IsClosed(), "a connection that was not closed keeps working")
		rt.Reach("kept")
	}
	rt.Assert(w.srv.Start() == nil, "restart")
	rt.Idle()
	c2 := rt.OpenListener("tcp", ":1").Connect("9.9.9.9:2")
	rt.Idle()
	time.Sleep(d - 1)
	rt.Idle()
	rt.Assert(!c2.IsClosed(), "a new connection lives")
	time.Sleep(4 * d)
	rt.Idle()
	rt.Assert(c2.IsClosed(), "a new connection is watched")
	w.srv.Stop(true)
	rt.Idle()
	rt.Assert(c.IsClosed() || !all, "closed")
	rt.Reach("watched")
}

// C21_in: any string of up to 4 bytes and any list of up to 2 patterns of up to 3 bytes: the wildcard rule, and no panic.
func C21_in() {
	quiet()
	s := rt.Str("s", rt.Choose("slen", 5))
	n := rt.Choose("n", 3)
	var arr []string
	want := false
	for i := 0; i < n; i++ {
		k := rt.Choose("plen", 4)
		if i == 1 && k > 1 {
			k = 1
		}
		p := rt.Str("p", k)
		arr = append(arr, p)
		// reference, by definition
		has := false
		for j := 0; j < len(p); j++ {
			if p[j] == '%' {
				has = true
			}
		}
		if !has {
			if len(p) == len(s) && p == s {
				want = true
			}
			continue
		}
		lead, trail := p[0] == '%', p[len(p)-1] == '%'
		switch {
		case lead && trail:
			mid := ""
			if len(p) > 1 {
				mid = p[1 : len(p)-1]
			}
			for j := 0; j+len(mid) <= len(s); j++ {
				if s[j:j+len(mid)] == mid {
					want = true
				}
			}
		case lead:
			m := p[1:]
			if len(s) >= len(m) && s[len(s)-len(m):] == m {
				want = true
			}
		case trail:
			m := p[:len(p)-1]
			if len(s) >= len(m) && s[:len(m)] == m {
				want = true
			}
		}
	}
	got := tcpx.In(s, arr)
	if len(arr) == 1 && (arr[0] == "%" || arr[0] == "%%") {
		rt.Assert(got, "a pattern of wildcards only matches everything")
	}
	rt.Assert(got == want, "In follows the wildcard rule")
	if got {
		rt.Reach("match")
	} else {
		rt.Reach("nomatch")
	}
}

// C21_listen: any network name of up to 4 bytes, or one of the documented ones with any byte changed or appended: dispatched to the stream server, the packet
// server, or refused with an error and nothing opened.
func C21_listen() {
	quiet()
	base := []string{"", "tcp", "tcp4", "tcp6", "unix", "unixpacket", "udp", "udp4", "udp6", "unixgram", "ip", "ip4:icmp", "kcp", "http"}
	nw := base[rt.Choose("base", len(base))]
	switch rt.Choose("edit", 3) {
	case 1:
		nw += rt.Str("more", 1)
	case 2:
		if len(nw) > 0 {
			i := rt.Choose("pos", len(nw))
			nw = nw[:i] + rt.Str("ch", 1) + nw[i+1:]
		} else {
			nw = rt.Str("any", 4)
		}
	}
	one := func(l ...string) bool {
		for _, x := range l {
			if nw == x {
				return true
			}
		}
		return false
	}
	stream := one("tcp", "tcp4", "tcp6", "unix", "unixpacket")
	packet := one("udp", "udp4", "udp6", "unixgram") || len(nw) >= 2 && nw[:2] == "ip"
	srv := tcpx.NewTcpX(nil)
	var err error
	ret := false
	go func() {
		err = srv.ListenAndServe(nw, ":1")
		ret = true
	}()
	rt.Idle()
	switch {
	case stream:
		rt.Assert(len(rt.N.Listeners) == 1 && len(rt.N.Packets) == 0 && !ret, "a stream network is served by the stream server")
		rt.Assert(rt.N.Listeners[0].Network == nw && rt.N.Listeners[0].Address == ":1", "on that network and address")
		rt.Reach("stream")
	case packet:
		rt.Assert(len(rt.N.Listeners) == 0 && len(rt.N.Packets) == 1 && !ret, "a packet network is served by the packet server")
		rt.Assert(rt.N.Packets[0].Network == nw && rt.N.Packets[0].Address == ":1", "on that network and address")
		rt.Reach("packet")
	default:
		rt.Assert(ret && err != nil && rt.N.Opened == 0, "any other network is refused with an error and opens nothing")
		rt.Reach("refused")
	}
}

// C23_server: any combination of general, read and write deadlines (any instants) on framed, raw and packet servers: each connection gets the specific one, else the
// general one, else none.
func C23_server() {
	quiet()
	t0 := time.Now()
	var at [3]time.Time
	for i, n := range []string{"general", "read", "write"} {
		if rt.Bool("has " + n) {
			at[i] = t0.Add(time.Duration(rt.Int(n, 1, 1<<40)))
		}
	}
	srv := tcpx.NewTcpX(nil)
	order := rt.Choose("order", 2)
	for j := 0; j < 3; j++ {
		i := j
		if order == 1 {
			i = 2 - j
		}
		if at[i].IsZero() {
			continue
		}
		switch i {
		case 0:
			srv.SetDeadline(at[0])
		case 1:
			srv.SetReadDeadline(at[1])
		case 2:
			srv.SetWriteDeadline(at[2])
		}
	}
	wr, ww := at[0], at[0]
	if !at[1].IsZero() {
		wr = at[1]
	}
	if !at[2].IsZero() {
		ww = at[2]
	}
	srv.HandleRaw = func(c *tcpx.Context) { c.ConnReader.Read(make([]byte, 1)) }
	var r, w time.Time
	switch rt.Choose("kind", 3) {
	case 0:
		l := up(srv)
		l.Connect("9.9.9.9:1")
		c := l.Connect("9.9.9.9:2")
		rt.Idle()
		r, w = c.ReadDL, c.WriteDL
	case 1:
		go srv.ListenAndServeRaw("tcp", ":1")
		rt.Idle()
		c := rt.OpenListener("tcp", ":1").Connect("9.9.9.9:1")
		rt.Idle()
		r, w = c.ReadDL, c.WriteDL
	case 2:
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		p := rt.OpenPacket("udp", ":1")
		r, w = p.ReadDL, p.WriteDL
	}
	rt.Assert(r.Equal(wr), "the read deadline is the specific one, else the general one, else none")
	rt.Assert(w.Equal(ww), "the write deadline is the specific one, else the general one, else none")
	rt.Reach("set")
}

// C23_context: changing a deadline (any instant) through a TCP or UDP context sets exactly that deadline of that connection.
func C23_context() {
	quiet()
	t0 := time.Now()
	a := t0.Add(time.Duration(rt.Int("a", 1, 1<<40)))
	b := t0.Add(time.Duration(rt.Int("b", 1, 1<<40)))
	c1, c2 := rt.NewConn("9.9.9.9:1"), rt.NewConn("9.9.9.9:2")
	pc, _ := rt.ListenPacket("udp", ":1")
	p := pc.(*rt.FPacketConn)
	udp := rt.Bool("udp")
	x := tcpx.NewContext(c1, nil)
	tcpx.NewContext(c2, nil)
	if udp {
		x = tcpx.NewUDPContext(pc, rt.FAddr{"udp", "9.9.9.9:1"}, nil)
	}
	rt.Assert(x.SetDeadline(a) == nil, "set")
	var r, w = a, a
	var e error
	switch rt.Choose("op", 4) {
	case 0:
		e = x.SetReadDeadline(b)
		r = b
	case 1:
		e = x.SetWriteDeadline(b)
		w = b
	case 2:
		e = x.SetDeadline(b)
		r, w = b, b
	case 3:
		e = x.SetDeadline(time.Time{})
		r, w = time.Time{}, time.Time{}
	}
	rt.Assert(e == nil, "set")
	gr, gw := c1.ReadDL, c1.WriteDL
	if udp {
		gr, gw = p.ReadDL, p.WriteDL
		rt.Assert(c1.DLCalls == 0, "only that socket")
	}
	rt.Assert(gr.Equal(r) && gw.Equal(w), "exactly that deadline is set")
	rt.Assert(c2.DLCalls == 0, "other connections are untouched")
	rt.Reach("set")
}

// C30_exit: any of the handled signals, arriving as soon as it can or later, 0..3, 5 or 9 jobs: the jobs run once each in order, then the process exits with status 0; a second signal,
// during the jobs or after them, changes nothing.
func C30_exit() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var ran []int
	n := []int{0, 1, 2, 3, 5, 9}[rt.Choose("jobs", 6)]
	again := n > 0 && rt.Bool("again")
	gate := make(chan int)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() {
			rt.Assert(len(rt.N.Exits) == 0, "jobs run before the exit")
			ran = append(ran, i)
			if again && i == 0 {
				// a further signal arrives while the jobs run
				rt.Assert(rt.N.Raise(syscall.SIGTERM) && rt.N.Raise(syscall.SIGINT), "a further signal does not end the process before the jobs are done")
				<-gate
			}
		})
	}
	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}
	s := sigs[rt.Choose("sig", 3)]
	early := rt.Bool("early")
	if early {
		rt.N.SigOnNotify = s
	}
	srv.BeforeExit(fs...)
	rt.Idle()
	if !early {
		rt.Assert(len(ran) == 0 && len(rt.N.Exits) == 0, "nothing happens without a signal")
		rt.Assert(rt.N.Raise(s), "the signal is handled")
	}
	rt.Idle()
	if again {
		rt.Assert(len(ran) == 1 && len(rt.N.Exits) == 0, "the jobs go on one after another and the process does not exit before")
		close(gate)
		rt.Idle()
		rt.Reach("again")
	}
	want := []int{}
	for i := 0; i < n; i++ {
		want = append(want, i)
	}
	if rt.Bool("twice") {
		rt.Assert(len(ran) == n, "the first signal is enough")
		rt.N.Raise(s)
		rt.Idle()
	}
	rt.Assert(sameInts(ran, want), "the jobs run once each, in order")
	rt.Assert(len(rt.N.Exits) == 1 && rt.N.Exits[0] == 0, "then the process exits with status 0")
	rt.Reach("exited")
}
