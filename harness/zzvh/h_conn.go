package zzvh

import (
	"errors"
	"strconv"
	"time"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

func pipedHeader(count string) []byte {
	return []byte(`{"` + pipedKey + `":"enable;` + count + `"}`)
}

// readAhead is what a server may have taken from a connection beyond what it looked at (a buffered reader).
const readAhead = 4096

// C06_server: a TCP server with any maximum up to 70000 (also none) and two messages with bodies of any length up to 70000, single or as a
// pipelined batch, then a small third message: messages beyond the maximum close the connection before their payload is read, and run no handler; others
// are all handled unchanged.
func C06_server() {
	quiet()
	max := rt.Int("max", -2, sizeMax)
	srv := tcpx.NewTcpX(nil)
	if rt.Bool("changed") {
		// the last setting counts
		srv.SetMaxBytePerMessage(rt.I32("before"))
	}
	srv.SetMaxBytePerMessage(int32(max))
	var got [][]byte
	srv.AddHandler(1, func(c *tcpx.Context) { got = append(got, c.Stream) })
	closes := 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	batch := rt.Bool("batch")
	h1 := []byte("{}")
	if batch {
		h1 = pipedHeader("2")
	}
	f1 := frame(1, h1, rt.Big("b1", rt.Int("n1", 0, sizeMax)))
	f2 := frame(1, []byte("{}"), rt.Big("b2", rt.Int("n2", 0, sizeMax)))
	f3 := idFrame(1, nil)
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	other := l.Connect("9.9.9.9:2")
	okay := func(f []byte) bool { return max <= 0 || len(f)-4 <= max }
	var want [][]byte
	consumed := 0
	refused := false
	for _, f := range [][]byte{f1, f2, f3} {
		c.Send(f)
		rt.Idle()
		if refused {
			continue
		}
		if okay(f) {
			want = append(want, f)
			consumed += len(f)
		} else {
			consumed += 4
			refused = true
		}
	}
	if batch && refused {
		rt.Reach("refused in batch")
	}
	rt.Assert(len(got) == len(want), "exactly the messages within the maximum before a refused one are handled")
	for i := range want {
		rt.AssertBytesEq(got[i], want[i], "an accepted message is handled unchanged")
	}
	rt.Assert(c.Consumed <= consumed+readAhead, "the payload of a refused message is not read")
	rt.Assert(c.IsClosed() == refused, "a refused message closes the connection, others do not")
	if refused {
		rt.Assert(closes == 1, "the close callback runs once")
		rt.Reach("refused")
	} else {
		rt.Assert(closes == 0, "no close callback")
		rt.Reach("accepted")
	}
	rt.Assert(!other.IsClosed(), "other connections are unaffected")
}

// C11_pipe: PipeJSON of 1..3 messages with any message IDs and string bodies (1 byte): exactly that many frames in one write; sent to a server
// and followed by another message, all are handled in order through routing and middlewares, the batch strictly one after another.
func C11_pipe() {
	quiet()
	n := 1 + rt.Choose("n", 3)
	ids := make([]int32, n)
	bodies := make([]string, n)
	var args []interface{}
	for i := 0; i < n; i++ {
		ids[i] = rt.I32("id")
		s := rt.Str("body", 1)
		rt.Assume(s[0] >= ' ' && s[0] < 0x7f && s[0] != '"' && s[0] != '\\' && s[0] != '<' && s[0] != '>' && s[0] != '&')
		bodies[i] = s
		args = append(args, int(ids[i]), s)
	}
	w := rt.NewConn("server")
	e := tcpx.PipeJSON(w, args...)
	rt.Assert(e == nil, "the batch is sent")
	ws := w.Written()
	rt.Assert(len(ws) == 1, "the batch is one write")
	var want [][]byte
	for i := 0; i < n; i++ {
		h := []byte("{}")
		if i == 0 {
			h = pipedHeader(strconv.Itoa(n))
		} else {
			h = []byte("null")
		}
		want = append(want, frame(ids[i], h, []byte(`"`+bodies[i]+`"`)))
	}
	var rest = ws[0]
	for i := 0; i < n; i++ {
		f, e := tcpx.FirstBlockOfBytes(rest)
		rt.Assert(e == nil, "the batch consists of frames")
		id, _ := tcpx.MessageIDOf(f)
		b, _ := tcpx.BodyBytesOf(f)
		rt.Assert(id == ids[i], "the message IDs are the given ones, in order")
		rt.AssertBytesEq(b, []byte(`"`+bodies[i]+`"`), "the bodies are the given ones, in order")
		rest = rest[len(f):]
	}
	rt.Assert(len(rest) == 0, "nothing follows the frames")
	_ = want

	srv := tcpx.NewTcpX(nil)
	var ran []string
	running, overlap := 0, 0
	gate := make(chan int)
	mids := 0
	h := func(tag string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			running++
			if running > 1 {
				overlap++
			}
			var s string
			_, e := c.Bind(&s)
			rt.Assert(e == nil, "the body binds")
			<-gate
			ran = append(ran, tag+s)
			running--
		}
	}
	hid := rt.I32("hid")
	srv.UseGlobal(func(c *tcpx.Context) { mids++ })
	srv.AddHandler(hid, h("x"))
	srv.AddHandler(hid+1, h("y"))
	after := 0
	srv.AddHandler(hid+2, func(c *tcpx.Context) { after++ })
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(ws[0])
	c.Send(idFrame(hid+2, nil))
	rt.Idle()
	var exp []string
	extra := 0
	for i := 0; i < n; i++ {
		if ids[i] == hid {
			exp = append(exp, "x"+bodies[i])
		} else if ids[i] == hid+1 {
			exp = append(exp, "y"+bodies[i])
		} else if ids[i] == hid+2 {
			extra++
		}
	}
	rt.Assert(after >= 1, "messages after the batch are handled independently of it")
	for i := 0; i < len(exp); i++ {
		gate <- 1
	}
	rt.Idle()
	rt.Assert(overlap == 0, "messages of a batch are handled one after another")
	rt.Assert(len(ran) == len(exp), "every message of the batch is handled once")
	for i := range exp {
		rt.Assert(ran[i] == exp[i], "messages of a batch are handled in the order sent, each by its own routing")
	}
	rt.Assert(after == 1+extra, "routing of the rest")
	rt.Assert(mids == len(exp)+1+extra, "each message of a batch runs its middlewares")
	if len(exp) == 3 {
		rt.Reach("three")
	}
}

// C11_cut: a batch announced as 3 messages of 2..3-byte bodies cut at any byte, ending the connection: only completely received messages are handled,
// in order; the connection is closed and the close callback runs once.
func C11_cut() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var ran []int32
	srv.AddHandler(1, func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); ran = append(ran, id) })
	srv.AddHandler(2, func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); ran = append(ran, id) })
	srv.AddHandler(3, func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); ran = append(ran, id) })
	closes := 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	fs := [][]byte{frame(1, pipedHeader("3"), rt.Bytes("b1", 2)), idFrame(2, rt.Bytes("b2", 3)), idFrame(3, rt.Bytes("b3", 2))}
	all := cat(fs...)
	at := rt.Int("at", 0, len(all))
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	c.Send(all[:at])
	rt.Idle()
	if rt.Bool("broken") {
		c.SendErr(errBroken)
	} else {
		c.SendEOF()
	}
	rt.Idle()
	n := 0
	sum := 0
	for _, f := range fs {
		sum += len(f)
		if at >= sum {
			n++
		}
	}
	rt.Assert(len(ran) == n, "exactly the messages really received are handled")
	for i := range ran {
		rt.Assert(ran[i] == int32(i+1), "in order")
	}
	rt.Assert(c.IsClosed() && closes == 1, "the connection is closed once")
	if n == 2 {
		rt.Reach("two")
	}
	if n == 0 {
		rt.Reach("none")
	}
}

// C11_count: a batch header announcing any count text of up to 3 bytes followed by 2 further messages and the end of the stream: only received messages
// are handled, none twice, and the server survives.
func C11_count() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	var ran []int32
	h := func(c *tcpx.Context) { id, _ := tcpx.MessageIDOf(c.Stream); ran = append(ran, id) }
	srv.AddHandler(1, h)
	srv.AddHandler(2, h)
	srv.AddHandler(3, h)
	cnt := rt.Str("cnt", rt.Choose("len", 4))
	for i := 0; i < len(cnt); i++ {
		rt.Assume(cnt[i] >= ' ' && cnt[i] < 0x7f && cnt[i] != '"' && cnt[i] != '\\')
	}
	hdr := `{"` + pipedKey + `":"` + []string{"enable;", "disable;", ";", ""}[rt.Choose("word", 4)] + cnt + `"}`
	if rt.Bool("nostring") {
		hdr = `{"` + pipedKey + `":3}`
	}
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	other := l.Connect("9.9.9.9:2")
	c.Send(cat(frame(1, []byte(hdr), nil), idFrame(2, nil), idFrame(3, nil)))
	rt.Idle()
	c.SendEOF()
	rt.Idle()
	rt.Assert(len(ran) == 0 || len(ran) == 3, "a batch header is accepted with all messages or closes the connection")
	seen := map[int32]bool{}
	for _, id := range ran {
		rt.Assert(!seen[id], "no message is handled twice")
		seen[id] = true
	}
	rt.Assert(c.IsClosed(), "the connection is closed at its end")
	other.Send(idFrame(2, nil))
	k := len(ran)
	rt.Idle()
	rt.Assert(len(ran) == k+1, "other connections are still served")
	if k == 3 {
		rt.Reach("accepted")
	} else {
		rt.Reach("refused")
	}
}

// C12_tcp: any first n (0..20, thorough ..22) bytes on a connection, delivered whole or byte by byte, then the end: no crash; what cannot be
// framed closes the connection with one close callback; another connection and a new one are served; handlers may bind.
func C12_tcp() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	closes, served, bound := 0, 0, 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	srv.AddHandler(77, func(c *tcpx.Context) { served++ })
	anyH := func(c *tcpx.Context) {
		var d int
		c.Bind(&d)
		c.RawStream()
		c.GetURLPattern()
		bound++
	}
	srv.AddHandler(1, anyH)
	srv.Any("", anyH)
	l := up(srv)
	other := l.Connect("9.9.9.9:2")
	c := l.Connect("9.9.9.9:1")
	n := rt.Choose("n", 21+2*rt.Tier())
	b := rt.Bytes("b", n)
	if n >= 8 {
		rt.Assume(rd32(b[4:]) != 77)
	}
	if rt.Bool("limit") {
		srv.SetMaxBytePerMessage(100)
	} else if n >= 4 {
		// longer ones only wait for more bytes
		rt.Assume(rd32(b) < 100 || rd32(b) >= 1<<31)
	}
	if rt.Bool("bytewise") {
		c.ReadN = func(want, avail int) int { return 1 }
	}
	c.Send(b)
	rt.Idle()
	if n >= 4 && (rd32(b) >= 1<<31) {
		rt.Assert(c.IsClosed() && closes == 1, "bytes that cannot be framed close the connection")
		rt.Reach("unframed")
	}
	c.SendEOF()
	rt.Idle()
	rt.Assert(c.IsClosed(), "a connection that ended is closed")
	rt.Assert(closes == 1, "its close callback runs once")
	rt.Assert(!other.IsClosed(), "other connections stay open")
	other.Send(idFrame(77, nil))
	rt.Idle()
	rt.Assert(served == 1, "other connections are served")
	l.Connect("9.9.9.9:3").Send(idFrame(77, nil))
	rt.Idle()
	rt.Assert(served == 2, "new connections are served")
	if bound > 0 {
		rt.Reach("bound")
	}
}

// C12_header: a well-formed frame whose header is any 0..6 bytes (thorough ..7) and whose ID and 2-byte body are arbitrary, over TCP or UDP.
func C12_header() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	served := 0
	srv.AddHandler(77, func(c *tcpx.Context) { served++ })
	anyH := func(c *tcpx.Context) {
		var d string
		c.Bind(&d)
		c.RawStream()
		c.GetURLPattern()
		c.RouterType()
		c.JSONURLPattern("x")
		rt.Reach("handled")
	}
	srv.AddHandler(1, anyH)
	srv.Any("", anyH)
	hdr := rt.Bytes("h", rt.Choose("n", 5+rt.Tier()))
	id := rt.I32("id")
	rt.Assume(id != 77)
	f := frame(id, hdr, rt.Bytes("body", 2))
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":1")
		rt.Idle()
		p := rt.OpenPacket("udp", ":1")
		p.Deliver(f, "9.9.9.9:1")
		rt.Idle()
		p.Deliver(idFrame(77, nil), "9.9.9.9:2")
	} else {
		l := up(srv)
		c := l.Connect("9.9.9.9:1")
		other := l.Connect("9.9.9.9:2")
		c.Send(f)
		rt.Idle()
		other.Send(idFrame(77, nil))
	}
	rt.Idle()
	rt.Assert(served == 1, "others are served")
}

// C12_wild: route kind, URL pattern and batch fields of a header each holding any JSON kind, over TCP, then the end of the stream.
func C12_wild() {
	quiet()
	vals := []string{"", `"URL_PATTERN"`, `"enable;2"`, "7", "null", `{"a":[1]}`, `["x"]`, "true"}
	js := ""
	for _, k := range []string{"Router-Type", "Router-Pattern-Value", pipedKey} {
		v := vals[rt.Choose(k, len(vals))]
		if v == "" {
			continue
		}
		if js != "" {
			js += ","
		}
		js += `"` + k + `":` + v
	}
	srv := tcpx.NewTcpX(nil)
	closes, served := 0, 0
	srv.OnClose = func(c *tcpx.Context) { closes++ }
	srv.AddHandler(77, func(c *tcpx.Context) { served++ })
	srv.Any("7", func(c *tcpx.Context) {})
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	other := l.Connect("9.9.9.9:2")
	c.Send(frame(rt.I32("id"), []byte("{"+js+"}"), nil))
	rt.Idle()
	served = 0
	other.Send(idFrame(77, nil))
	rt.Idle()
	rt.Assert(served == 1, "others are served")
	c.SendEOF()
	rt.Idle()
	rt.Assert(c.IsClosed() && closes == 1, "the connection is closed once at its end")
	rt.Reach("survived")
}

// C12_udp: any datagram of 0..20 bytes (thorough ..22), any sender, also twice: no crash, later datagrams of others are served.
func C12_udp() {
	quiet()
	srv := tcpx.NewTcpX(nil)
	served := 0
	srv.AddHandler(77, func(c *tcpx.Context) { served++ })
	anyH := func(c *tcpx.Context) {
		var d int
		c.Bind(&d)
		c.RawStream()
		rt.Reach("handled")
	}
	srv.AddHandler(1, anyH)
	go srv.ListenAndServe("udp", ":1")
	rt.Idle()
	p := rt.OpenPacket("udp", ":1")
	n := rt.Choose("n", 21+2*rt.Tier())
	b := rt.Bytes("b", n)
	if n >= 8 {
		rt.Assume(rd32(b[4:]) != 77)
	}
	p.Deliver(b, "9.9.9.9:1")
	rt.Idle()
	p.Deliver(idFrame(77, nil), "9.9.9.9:2")
	rt.Idle()
	rt.Assert(served == 1 && !p.IsClosed(), "later datagrams are served")
}

var errAccept = errors.New("accept fails")

// C13_beats: any interval of 1..1000 ticks, up to 2 (thorough 3) gaps of any length up to 4 intervals (not exactly 3), each followed by a heartbeat or an ordinary
// message, then silence; heartbeats by default, custom or rewritten message ID: the connection is dropped exactly three intervals after the last heartbeat.
func C13_beats() {
	quiet()
	d := time.Duration(rt.Int("interval", 1, 1000))
	srv := tcpx.NewTcpX(nil)
	hb := int32(tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
	switch rt.Choose("mode", 3) {
	case 0:
		srv.HeartBeatMode(true, d)
	case 1:
		hb = rt.I32("hb")
		rt.Assume(hb != 5)
		srv.HeartBeatModeDetail(true, d, rt.Bool("through"), hb)
	case 2:
		hb = rt.I32("hb")
		rt.Assume(hb != 5 && hb != tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
		srv.HeartBeatMode(true, d)
		srv.RewriteHeartBeatHandler(hb, func(c *tcpx.Context) { c.RecvHeartBeat() })
	}
	lost, lostOpen := 0, 0
	var c *rt.FConn
	withLoss := rt.Bool("withloss")
	if withLoss {
		srv.SetEventOnHeartbeatLoss(func(x *tcpx.Context) {
			lost++
			if !c.IsClosed() && x.IsOnline() {
				lostOpen++
			}
		})
	}
	closes := 0
	srv.OnClose = func(x *tcpx.Context) { closes++ }
	srv.AddHandler(5, func(x *tcpx.Context) {})
	l := up(srv)
	c = l.Connect("9.9.9.9:1")
	rt.Idle()
	silent := time.Duration(0)
	for i := 0; i < 2+rt.Tier(); i++ {
		g := time.Duration(rt.Int("gap", 0, 4000))
		rt.Assume(g <= 4*d)
		silent += g
		rt.Assume(silent != 3*d)
		time.Sleep(g)
		rt.Idle()
		if silent > 3*d {
			break
		}
		rt.Assert(!c.IsClosed() && lost == 0, "not dropped before three silent intervals")
		if rt.Bool("beat") {
			c.Send(idFrame(hb, nil))
			silent = 0
			rt.Reach("beat")
		} else {
			c.Send(idFrame(5, nil))
		}
		rt.Idle()
	}
	if silent < 3*d {
		rest := 3*d - silent
		time.Sleep(rest - 1)
		rt.Idle()
		rt.Assert(!c.IsClosed() && lost == 0, "not dropped before three silent intervals")
		time.Sleep(2)
		rt.Idle()
	}
	rt.Assert(c.IsClosed(), "dropped after three silent intervals")
	rt.Assert(closes == 1, "the close callback runs once")
	n := c.CloseCount
	time.Sleep(8 * d)
	rt.Idle()
	if withLoss {
		rt.Assert(lost == 1 && lostOpen == 1, "the loss callback runs exactly once, before the connection is closed")
	}
	rt.Assert(c.CloseCount == n, "the watch has ended")
	rt.Reach("dropped")
}

// C13_regular: a client that beats 3 (thorough 4) times, each at most one interval (any, up to 1000 ticks) after the previous one, is never dropped;
// in the other mode it beats twice and a second connection that stays silent is dropped at three intervals all the same. Framed and raw servers.
func C13_regular() {
	quiet()
	d := time.Duration(rt.Int("interval", 1, 1000))
	srv := tcpx.NewTcpX(nil)
	srv.HeartBeatMode(true, d)
	lost := 0
	srv.SetEventOnHeartbeatLoss(func(x *tcpx.Context) { lost++ })
	raw := rt.Bool("raw")
	var l *rt.FListener
	if raw {
		srv.HandleRaw = func(c *tcpx.Context) {
			b := make([]byte, 1)
			for {
				if _, e := c.ConnReader.Read(b); e != nil {
					return
				}
				c.RecvHeartBeat()
			}
		}
		go srv.ListenAndServeRaw("tcp", ":1")
		rt.Idle()
		l = rt.OpenListener("tcp", ":1")
	} else {
		l = up(srv)
	}
	c := l.Connect("9.9.9.9:1")
	n := 3 + rt.Tier()
	two := rt.Bool("two")
	mute := rt.NewConn("")
	if two {
		n = 2
		mute = l.Connect("9.9.9.9:2")
	}
	rt.Idle()
	total := time.Duration(0)
	for i := 0; i < n; i++ {
		g := time.Duration(rt.Int("gap", 0, 2000))
		rt.Assume(g <= d || two && g <= 2*d)
		total += g
		if two {
			rt.Assume(total != 3*d)
		}
		time.Sleep(g)
		if raw {
			c.Send([]byte{1})
		} else {
			c.Send(idFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, nil))
		}
		rt.Idle()
		rt.Assert(!c.IsClosed(), "a client that beats once per interval is never dropped")
	}
	rt.Assert(mute.IsClosed() == (two && total > 3*d), "a silent connection is dropped after three intervals, not before")
	if mute.IsClosed() {
		rt.Assert(lost == 1, "its loss callback runs once")
		rt.Reach("mute dropped")
	}
	rt.Reach("kept")
}

// C13_ended: a connection that ends by any of EOF, a closing handler or a server closing all connections (at any moment before three intervals) has no
// further effect of the watch.
func C13_ended() {
	quiet()
	d := time.Duration(rt.Int("interval", 2, 1000))
	srv := tcpx.NewTcpX(nil).WithBroadCastSignal(true)
	srv.HeartBeatMode(true, d)
	lost := 0
	srv.SetEventOnHeartbeatLoss(func(x *tcpx.Context) { lost++ })
	srv.AddHandler(5, func(x *tcpx.Context) { x.CloseConn() })
	closes := 0
	srv.OnClose = func(x *tcpx.Context) { closes++ }
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	rt.Idle()
	g := time.Duration(rt.Int("at", 0, 3000))
	rt.Assume(g < 3*d)
	time.Sleep(g)
	rt.Idle()
	switch rt.Choose("how", 3) {
	case 0:
		c.SendEOF()
	case 1:
		c.Send(idFrame(5, nil))
	case 2:
		srv.Stop(true)
	}
	rt.Idle()
	rt.Assert(c.IsClosed() && closes == 1, "closed once")
	n := c.CloseCount
	time.Sleep(8 * d)
	rt.Idle()
	rt.Assert(lost == 0, "no loss callback after the end")
	rt.Assert(c.CloseCount == n, "no effect after the end")
	rt.Reach("ended")
}

// C14_auth: any deadline of 1..1000 ticks, up to 2 messages at any times (not exactly the deadline), each passing, denying or neither, through middlewares or
// not, any auth message ID; optionally the client leaves first: closed exactly when denied or at the deadline without a pass.
func C14_auth() {
	quiet()
	d := time.Duration(rt.Int("deadline", 1, 1000))
	id := rt.I32("authid")
	rt.Assume(id != 5)
	srv := tcpx.NewTcpX(nil)
	through := rt.Bool("through")
	srv.WithAuthDetail(true, d, through, id, func(c *tcpx.Context) {
		b, _ := c.RawStream()
		switch b[0] {
		case 1:
			c.RecvAuthPass()
		case 2:
			c.RecvAuthDeny()
		}
	})
	srv.AddHandler(5, func(x *tcpx.Context) {})
	closes := 0
	srv.OnClose = func(x *tcpx.Context) { closes++ }
	l := up(srv)
	c := l.Connect("9.9.9.9:1")
	mute := l.Connect("9.9.9.9:2")
	rt.Idle()
	now := time.Duration(0)
	st := 0 // 1 passed, 2 closed
	for i := 0; i < 2+rt.Tier(); i++ {
		g := time.Duration(rt.Int("gap", 0, 1500))
		now += g
		rt.Assume(now != d)
		time.Sleep(g)
		rt.Idle()
		if st == 0 && now > d {
			st = 2
		}
		rt.Assert(c.IsClosed() == (st == 2), "closed exactly after a denial or at the deadline without a pass")
		if st == 2 {
			break
		}
		k := rt.Choose("what", 5)
		switch k {
		case 0:
			c.Send(idFrame(5, nil))
		case 4:
			c.SendEOF()
			rt.Idle()
			rt.Assert(c.IsClosed(), "the client left")
			n := c.CloseCount
			time.Sleep(2 * d)
			rt.Idle()
			rt.Assert(c.CloseCount == n && true, "the auth watch has no effect after the connection has ended")
			rt.Reach("left")
			return
		default:
			c.Send(idFrame(id, []byte{byte(k)}))
			if st == 0 && k == 1 {
				st = 1
				rt.Reach("passed")
			}
			if st == 0 && k == 2 {
				st = 2
				rt.Reach("denied")
			}
		}
		rt.Idle()
		rt.Assert(c.IsClosed() == (st == 2), "a denial closes at once, a pass or any other message does not")
		if st == 2 {
			break
		}
	}
	rt.Assert(mute.IsClosed() == (now > d), "another connection has to authenticate itself")
	time.Sleep(2 * d)
	rt.Idle()
	if st == 1 {
		rt.Assert(!c.IsClosed(), "a connection that passed is never closed by the auth mechanism")
		rt.Reach("kept")
	} else {
		rt.Assert(c.IsClosed(), "an unauthenticated connection is closed at the deadline")
		rt.Reach("dropped")
	}
	rt.Assert(mute.IsClosed(), "an unauthenticated connection is closed at the deadline")
}
