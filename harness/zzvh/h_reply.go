package zzvh

import (
	"encoding/xml"
	"errors"
	"io"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
)

// replyWorld is one context over TCP or UDP and the place its replies arrive.
type replyWorld struct {
	ctx *tcpx.Context
	c   *rt.FConn
	p   *rt.FPacketConn
}

func newReplyWorld(udp bool, m tcpx.Marshaller) *replyWorld {
	w := &replyWorld{}
	if udp {
		pc, e := rt.ListenPacket("udp", ":1")
		if e != nil {
			panic(e)
		}
		w.p = pc.(*rt.FPacketConn)
		w.ctx = tcpx.NewUDPContext(w.p, rt.FAddr{Net: "udp", S: "sender:7"}, m)
	} else {
		w.c = rt.NewConn("peer:7")
		w.ctx = tcpx.NewTCPContext(w.c, m)
	}
	return w
}

// out is everything written, with the addresses checked.
func (w *replyWorld) out() [][]byte {
	if w.c != nil {
		return w.c.Written()
	}
	var r [][]byte
	for _, d := range w.p.Written() {
		rt.Assert(d.Addr != nil && d.Addr.String() == "sender:7", "a UDP reply goes to the sender of the request")
		r = append(r, d.B)
	}
	return r
}

// writeError is one of the ways a write can fail.
func writeError(k int) error {
	switch k {
	case 0:
		return errBroken
	case 1:
		return rt.NetErr{Temp: true}
	case 2:
		return rt.NetErr{TO: true, Temp: true}
	case 3:
		return io.ErrShortWrite
	}
	return io.EOF
}

// failWrites makes every write fail; on a connection it may have taken some bytes before.
func (w *replyWorld) failWrites() (partial bool) {
	why := writeError(rt.Choose("errkind", 5))
	if w.c != nil {
		partial = rt.Bool("partial")
		w.c.WriteN = func(p []byte) (int, error) {
			if partial {
				return 1 + rt.Choose("taken", 2)*(len(p)-1), why
			}
			return 0, why
		}
	} else {
		w.p.WriteEr = why
	}
	return
}

// letters assumes that s is lower case.
func letters(s string) {
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
}

func ctxCodec(k int, rec *recM) tcpx.Marshaller {
	switch k {
	case 0:
		return tcpx.JsonMarshaller{}
	case 1:
		return tcpx.XmlMarshaller{}
	case 2:
		return tcpx.ProtobufMarshaller{}
	case 3:
		return tcpx.YamlMarshaller{}
	case 4:
		return tcpx.TomlMarshaller{}
	}
	return rec
}

// wantBody is the body bytes by the codec of that number (5: the recording one).
func wantBody(k int, v xbody, pb *wrapperspb.StringValue, rec *recM) ([]byte, interface{}) {
	var b []byte
	var e error
	switch k {
	case 0:
		return jsonOf(v), v
	case 1:
		b, e = xml.Marshal(v)
	case 2:
		b, e = proto.Marshal(pb)
		rt.Assume(e == nil)
		return b, pb
	case 3:
		b, e = yaml.Marshal(v)
	case 4:
		b, e = tcpx.MarshalTOML(v)
	case 5:
		return rec.out, v
	}
	rt.Assume(e == nil)
	return b, v
}

// reply calls the reply function of that number with the given body.
func reply(k int, w *replyWorld, other *replyWorld, rec *recM, id int32, body interface{}, hs []map[string]interface{}) error {
	switch k {
	case 0:
		return w.ctx.JSON(id, body, hs...)
	case 1:
		return w.ctx.XML(id, body, hs...)
	case 2:
		return w.ctx.ProtoBuf(id, body, hs...)
	case 3:
		return w.ctx.YAML(id, body, hs...)
	case 4:
		return w.ctx.TOML(id, body, hs...)
	case 5:
		return w.ctx.ReplyWithMarshaller(rec, id, body, hs...)
	case 6:
		return w.ctx.Reply(id, body, hs...)
	}
	return other.ctx.SendToConn(w.ctx, id, body, hs...)
}

// C17_codecs: every reply function (Reply, ReplyWithMarshaller, JSON, XML, TOML, YAML, ProtoBuf, SendToConn) on TCP and UDP contexts with every
// codec configured, any message ID, no, one or two header maps with any one-letter value, a 2-letter string field, followed by a second reply.
func C17_codecs() {
	quiet()
	udp := rt.Bool("udp")
	rec := &recM{out: rt.Bytes("rec", 3)}
	own := rt.Choose("codec", 6)
	w := newReplyWorld(udp, ctxCodec(own, rec))
	other := newReplyWorld(false, tcpx.JsonMarshaller{})
	id := rt.I32("id")
	name := rt.Str("name", 2)
	letters(name)
	v := xbody{Name: name, N: 3}
	pb := &wrapperspb.StringValue{Value: name}
	var hs []map[string]interface{}
	hw := map[string]interface{}{}
	nh := rt.Choose("headers", 3)
	for i := 0; i < nh; i++ {
		x := rt.Str("h", 1)
		letters(x)
		hs = append(hs, map[string]interface{}{"k": x})
		hw["k"] = x
	}
	fn := rt.Choose("function", 8)
	used := fn
	if fn >= 6 {
		used = own
	}
	bytes, body := wantBody(used, v, pb, rec)
	e := reply(fn, w, other, rec, id, body, hs)
	rt.Assert(e == nil, "a reply that can be encoded and written succeeds")
	out := w.out()
	rt.Assert(len(out) == 1, "a reply is exactly one write")
	rt.AssertBytesEq(out[0], frame(id, jsonOf(hw), bytes), "a reply is one complete frame with the given ID, headers and body")
	rt.Assert(len(other.out()) == 0, "nothing is written to another connection")
	rt.Reach("replied")
	// a second reply is independent of the first
	e = w.ctx.JSON(5, "x")
	rt.Assert(e == nil, "a second reply succeeds")
	out = w.out()
	rt.Assert(len(out) == 2, "the second reply is one more write")
	rt.AssertBytesEq(out[1], frame(5, []byte("{}"), []byte(`"x"`)), "the second reply is its own frame")
	rt.AssertBytesEq(out[0], frame(id, jsonOf(hw), bytes), "the first reply stays as it was")
	rt.Reach("second reply")
}

// C17_url: JSONURLPattern and ProtobufURLPattern called by a handler of a server (TCP, UDP) for a request with any URL pattern of 1..3 letters after
// the slash: one frame whose header selects URL routing with the request's pattern.
func C17_url() {
	quiet()
	srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	url := "/" + rt.Str("url", 1+rt.Choose("urllen", 3))
	letters(url[1:])
	pbuf := rt.Bool("protobuf")
	body := rt.Str("body", 2)
	letters(body)
	times := 1 + rt.Choose("replies", 2)
	ran := 0
	srv.Any(url, func(c *tcpx.Context) {
		ran++
		for i := 0; i < times; i++ {
			var e error
			if pbuf {
				e = c.ProtobufURLPattern(&wrapperspb.StringValue{Value: body})
			} else {
				e = c.JSONURLPattern(body)
			}
			rt.Assert(e == nil, "replying by URL pattern succeeds")
		}
	})
	req := frame(0, jsonOf(map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: url}), []byte("1"))
	var out [][]byte
	if rt.Bool("udp") {
		go srv.ListenAndServe("udp", ":2")
		rt.Idle()
		p := rt.OpenPacket("udp", ":2")
		p.Deliver(req, "s:1")
		rt.Idle()
		for _, d := range p.Written() {
			rt.Assert(d.Addr.String() == "s:1", "the reply goes to the sender")
			out = append(out, d.B)
		}
	} else {
		l := up(srv)
		c := l.Connect("c")
		c2 := l.Connect("c2")
		c.Send(req)
		rt.Idle()
		out = c.Written()
		rt.Assert(len(c2.Written()) == 0, "nothing is written to another connection")
	}
	rt.Assert(ran == 1, "the handler of the pattern runs once")
	rt.Assert(len(out) == times, "each reply is exactly one write")
	var bb []byte
	if pbuf {
		var e error
		bb, e = proto.Marshal(&wrapperspb.StringValue{Value: body})
		rt.Assume(e == nil)
	} else {
		bb = jsonOf(body)
	}
	for _, o := range out {
		b, e := tcpx.BodyBytesOf(o)
		rt.Assert(e == nil, "the reply is well-formed")
		rt.AssertBytesEq(b, bb, "the reply carries the encoded body")
		h, e := tcpx.HeaderBytesOf(o)
		rt.Assert(e == nil, "the reply has a header")
		rt.AssertBytesEq(o, frame(0, h, bb), "the reply is exactly one frame")
		t, e := tcpx.RouteTypeOf(o)
		rt.Assert(e == nil && t == tcpx.URLPATTERN, "the reply selects URL routing")
		u, e := tcpx.URLPatternOf(o)
		rt.Assert(e == nil && u == url, "the reply carries the request's URL pattern")
	}
	rt.Reach("replied")
}

// C17_fail: every reply function on TCP and UDP, encoding failing by an unencodable body or header, the write failing in any way
// (plain, temporary, timeout, short, EOF; with or without bytes taken), or the connection closed before: an error is
// returned, and nothing is written when encoding failed; a later good reply still works.
func C17_fail() {
	quiet()
	rec := &recM{out: []byte("abc")}
	w := newReplyWorld(rt.Bool("udp"), rec)
	other := newReplyWorld(false, tcpx.JsonMarshaller{})
	id := rt.I32("id")
	fn := rt.Choose("function", 10)
	w.ctx.Stream = frame(0, []byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/u"}`), nil)
	var body interface{} = xbody{Name: "n", N: 1}
	if fn == 2 || fn == 9 {
		body = &wrapperspb.StringValue{Value: "n"}
	}
	var hs []map[string]interface{}
	kind := rt.Choose("failure", 4)
	partial := false
	switch kind {
	case 3: // closed before
		w.ctx.CloseConn()
	case 0: // body
		body = make(chan int)
		rec.err = errCodec
	case 1: // header
		rt.Assume(fn < 8)
		hs = []map[string]interface{}{{"c": make(chan int)}}
	case 2: // write
		partial = w.failWrites()
	}
	var e error
	switch fn {
	case 8:
		e = w.ctx.JSONURLPattern(body)
	case 9:
		e = w.ctx.ProtobufURLPattern(body)
	default:
		e = reply(fn, w, other, rec, id, body, hs)
	}
	rt.Assert(e != nil, "a reply that cannot be encoded or written reports an error")
	if partial {
		rt.Assert(len(w.out()) == 1, "a failed write is not repeated")
	} else {
		rt.Assert(len(w.out()) == 0, "nothing is written when a reply fails")
	}
	if w.p != nil {
		rt.Assert(w.p.Tries <= 1, "a failed write is not repeated")
	}
	rt.Reach("refused")
	if kind < 2 {
		e = w.ctx.JSON(1, "x")
		rt.Assert(e == nil, "a later reply works")
		out := w.out()
		rt.Assert(len(out) == 1, "a later reply is one write")
		rt.AssertBytesEq(out[0], frame(1, []byte("{}"), []byte(`"x"`)), "a later reply is its own frame")
		rt.Reach("later")
	}
}

// C17_client: WriteJSON, PipeJSON of one message and TCPCallOnceJSON: any message ID, any 2-byte string body, a failing write or dial:
// one write with one frame, or an error.
func C17_client() {
	quiet()
	id := rt.I32("id")
	s := rt.Str("s", 2)
	letters(s)
	fail := rt.Bool("fail")
	c := rt.NewConn("peer")
	if fail {
		why := writeError(rt.Choose("errkind", 5))
		c.WriteN = func(p []byte) (int, error) { return 0, why }
	}
	var e error
	var h []byte
	fn := rt.Choose("function", 4)
	switch fn {
	case 3:
		rt.Assume(fail)
		e = tcpx.PipeJSON(c, int(id), s, 4, "second")
	case 0:
		e = tcpx.WriteJSON(c, id, s)
		h = []byte("null")
	case 1:
		e = tcpx.PipeJSON(c, int(id), s)
		h = jsonOf(map[string]interface{}{tcpx.PIPED: "enable;1"})
	case 2:
		if fail {
			rt.N.DialErr = errBroken
		}
		e = tcpx.TCPCallOnceJSON("tcp", "peer", int(id), s)
		h = []byte("null")
		if !fail {
			rt.Assert(len(rt.N.Dials) == 1, "one connection is dialled")
			c = rt.N.Dials[0]
			rt.Assert(c.IsClosed(), "a connection made for one call is closed afterwards")
		}
	}
	if fail {
		rt.Assert(e != nil, "a failing write or dial is reported")
		rt.Assert(len(c.Written()) == 0, "nothing is written")
		rt.Reach("failed")
		return
	}
	rt.Assert(e == nil, "a message that can be encoded and written is sent")
	w := c.Written()
	rt.Assert(len(w) == 1, "one message is one write")
	rt.AssertBytesEq(w[0], frame(id, h, jsonOf(s)), "the message is one frame")
	rt.Reach("sent")
}

// C19_whole: buffers of any length 0..70000 and any content, the connection taking any number of bytes in each of up to 4 (thorough 7) writes
// (also none), failing at any of them with or without having taken bytes: the bytes handed over are the buffer, once and in order.
func C19_whole() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	buf := rt.Big("buf", n)
	steps := 4
	if rt.Tier() > 0 {
		steps = 7
	}
	failAt := rt.Choose("failat", steps+1) // == steps: never
	isEOF := rt.Bool("eof")
	why := writeError(rt.Choose("errkind", 4))
	sent := 0
	calls := 0
	failed := false
	c := rt.NewConn("p")
	c.WriteN = func(p []byte) (int, error) {
		rt.Assert(!failed, "nothing is written after a failed write")
		rt.Assert(len(p) <= n-sent, "no more bytes are offered than remain")
		k := len(p)
		if calls < steps-1 {
			k = rt.Int("k", 0, sizeMax)
			rt.Assume(k <= len(p))
		}
		rt.AssertBytesEq(p, buf[sent:sent+len(p)], "the bytes offered are the ones that follow those already taken")
		at := calls
		calls++
		if at == failAt {
			failed = true
			sent += k
			if isEOF {
				return k, io.EOF
			}
			return k, why
		}
		sent += k
		return k, nil
	}
	e := tcpx.WriteConn(buf, c)
	if failed {
		rt.Assert(e != nil, "a failed write is reported")
		if isEOF {
			rt.Assert(e == io.EOF, "end of file is reported as such")
		}
		rt.Reach("failed")
		return
	}
	rt.Assert(e == nil, "without a failing write WriteConn succeeds")
	rt.Assert(sent == n, "the whole buffer has been handed over")
	rt.Assert(calls <= steps, "no needless writes follow the last byte")
	if calls > 2 {
		rt.Reach("several short writes")
	}
	rt.Reach("complete")
}

// C19_bytes: the concatenation of what the connection received for a buffer of 0..6 arbitrary bytes and every split into short writes of at least one byte.
func C19_bytes() {
	quiet()
	buf := rt.Bytes("buf", rt.Choose("n", 7))
	c := rt.NewConn("p")
	c.WriteN = func(p []byte) (int, error) {
		if len(p) <= 1 {
			return len(p), nil
		}
		return 1 + rt.Choose("k", len(p)), nil
	}
	e := tcpx.WriteConn(buf, c)
	rt.Assert(e == nil, "WriteConn succeeds")
	rt.AssertBytesEq(cat(c.Written()...), buf, "the connection received exactly the buffer, once and in order")
	rt.Reach("written")
}

// hostOf builds an arbitrary host of the kind and its textual form in an address.
func hostOf(kind int, tag string) (host, shown string) {
	switch kind {
	case 0: // IPv4 or name: no colon or bracket
		host = rt.Str(tag, 1+rt.Choose(tag+"len", 4))
		for i := 0; i < len(host); i++ {
			rt.Assume(host[i] != ':' && host[i] != '[' && host[i] != ']' && host[i] != '%')
		}
		return host, host
	case 1: // IPv6 of up to 4 characters
		host = rt.Str(tag, 2+rt.Choose(tag+"len", 3))
		for i := 0; i < len(host); i++ {
			rt.Assume(host[i] == ':' || host[i] >= '0' && host[i] <= '9' || host[i] >= 'a' && host[i] <= 'f')
		}
	case 2: // with zone
		host = "fe80::" + rt.Str(tag, 1) + "%" + rt.Str(tag+"zone", 2)
		for i := 6; i < len(host); i++ {
			rt.Assume(host[i] == '%' || host[i] >= 'a' && host[i] <= 'z' || host[i] >= '0' && host[i] <= '9')
		}
	}
	return host, "[" + host + "]"
}

func ipOf(udp bool, addr string) string {
	if udp {
		p, e := rt.ListenPacket("udp", ":1")
		rt.Assume(e == nil)
		return tcpx.NewUDPContext(p, rt.FAddr{Net: "udp", S: addr}, nil).ClientIP()
	}
	return tcpx.NewTCPContext(rt.NewConn(addr), nil).ClientIP()
}

func portOf(tag string) string {
	p := rt.Str(tag, rt.Choose(tag+"len", 3))
	for i := 0; i < len(p); i++ {
		rt.Assume(p[i] >= '0' && p[i] <= '9')
	}
	return p
}

// C20_ip: any host without colons of 1..4 bytes, any bracketed IPv6 host of 2..4 characters, any link-local IPv6 host with a 2-character zone, any port of
// 0..2 digits, TCP and UDP.
func C20_ip() {
	quiet()
	host, shown := hostOf(rt.Choose("kind", 3), "host")
	ip := ipOf(rt.Bool("udp"), shown+":"+portOf("port"))
	if host == "::1" {
		rt.Assert(ip == "127.0.0.1", "IPv6 loopback is reported as 127.0.0.1")
		rt.Reach("loopback")
		return
	}
	rt.Assert(ip == host, "the client IP is the host part of the address")
	rt.Reach("host")
	rt.ObsStr("ip", ip)
}

// C20_real: a representative full-length IPv4, IPv6 and IPv6-with-zone address with any 5-digit port, each with one arbitrary digit.
func C20_real() {
	quiet()
	d := rt.Str("d", 1)
	rt.Assume(d[0] >= '0' && d[0] <= '9')
	port := rt.Str("port", 5)
	for i := 0; i < 5; i++ {
		rt.Assume(port[i] >= '0' && port[i] <= '9')
	}
	var host, shown string
	switch rt.Choose("kind", 3) {
	case 0:
		host = "192.168.10" + d + ".254"
		shown = host
	case 1:
		host = "2001:db8:85a3:1234:5678:8a2e:370:733" + d
		shown = "[" + host + "]"
	case 2:
		host = "fe80::1ff:fe23:4567:890" + d + "%eth0"
		shown = "[" + host + "]"
	}
	ip := ipOf(rt.Bool("udp"), shown+":"+port)
	rt.Assert(ip == host, "the client IP is the host part of the address")
	rt.Reach("host")
}

// codecNames is the documented set: name -> canonical name.
var codecNames = [][2]string{{"json", "json"}, {"xml", "xml"}, {"toml", "toml"}, {"tml", "toml"}, {"yaml", "yaml"}, {"yml", "yaml"}, {"protobuf", "protobuf"}, {"proto", "protobuf"}}

func canonical(name string) string {
	for _, n := range codecNames {
		if n[0] == name {
			return n[1]
		}
	}
	return ""
}

func codecOf(canon string) tcpx.Marshaller {
	switch canon {
	case "json":
		return tcpx.JsonMarshaller{}
	case "xml":
		return tcpx.XmlMarshaller{}
	case "toml":
		return tcpx.TomlMarshaller{}
	case "yaml":
		return tcpx.YamlMarshaller{}
	}
	return tcpx.ProtobufMarshaller{}
}

// C22_names: every name of 0..9 arbitrary bytes: lookup, pack-by-name and unpack-by-name accept exactly the documented names and resolve them to
// the same codec.
func C22_names() {
	quiet()
	name := rt.Str("name", rt.Choose("len", 10))
	canon := canonical(name)
	known := canon != ""
	m, e := tcpx.GetMarshallerByMarshalName(name)
	rt.Assert((e == nil) == known, "the lookup accepts exactly the documented names")
	rt.Assert(!known || m != nil && m.MarshalName() == canon, "the lookup gives the codec of that name")
	rt.Assert(known || m == nil, "an unknown name gives no codec")

	var body interface{} = xbody{Name: "n", N: 4}
	var dest interface{} = &xbody{}
	if canon == "protobuf" {
		body = &wrapperspb.StringValue{Value: "n"}
		dest = &wrapperspb.StringValue{}
	}
	p, e := tcpx.PackWithMarshallerName(tcpx.Message{MessageID: 4, Body: body}, name)
	rt.Assert((e == nil) == known, "packing by name accepts exactly the documented names")
	if !known {
		rt.Assert(len(p) == 0, "an unknown name gives no bytes")
		// a frame whose body no codec rejects for being empty
		_, e = tcpx.UnpackWithMarshallerName(frame(4, []byte("{}"), []byte("{}")), dest, name)
		rt.Assert(e != nil, "unpacking by an unknown name is an error")
		_, e = tcpx.UnpackWithMarshallerName(frame(4, []byte("{}"), nil), dest, name)
		rt.Assert(e != nil, "unpacking an empty body by an unknown name is an error")
		rt.Reach("unknown")
		return
	}
	ref, e := tcpx.PackWithMarshaller(tcpx.Message{MessageID: 4, Body: body}, codecOf(canon))
	rt.Assert(e == nil, "the codec itself packs")
	rt.AssertBytesEq(p, ref, "packing by name uses the codec of that name")
	msg, e := tcpx.UnpackWithMarshallerName(p, dest, name)
	rt.Assert(e == nil, "unpacking by name accepts exactly the documented names")
	rt.Assert(msg.MessageID == 4, "unpacking by name gives the message")
	if canon == "protobuf" {
		rt.Assert(dest.(*wrapperspb.StringValue).GetValue() == "n", "unpacking by name uses the codec of that name")
	} else {
		rt.Assert(*dest.(*xbody) == xbody{Name: "n", N: 4}, "unpacking by name uses the codec of that name")
	}
	rt.Reach("known")
	rt.ObsStr("codec", canon)
}

// C22_nil: a missing marshaller is JSON in packing, unpacking, contexts (TCP, UDP) and servers, for any 2-letter string body.
func C22_nil() {
	quiet()
	s := rt.Str("s", 2)
	letters(s)
	want := cat([]byte(`"`), []byte(s), []byte(`"`))
	var p []byte
	var e error
	switch rt.Choose("entry", 7) {
	case 0:
		p, e = tcpx.PackWithMarshaller(tcpx.Message{MessageID: 1, Body: s}, nil)
	case 1:
		p, e = tcpx.NewPackx(nil).Pack(1, s)
	case 2:
		p, e = tcpx.Pack(1, nil, s, nil)
	case 3:
		p, e = tcpx.Message{MessageID: 1, Body: s}.Pack(nil)
	case 4:
		w := newReplyWorld(rt.Bool("udp"), nil)
		e = w.ctx.Reply(1, s)
		if o := w.out(); len(o) == 1 {
			p = o[0]
		}
	case 5:
		w := newReplyWorld(rt.Bool("udp"), tcpx.XmlMarshaller{})
		e = w.ctx.ReplyWithMarshaller(nil, 1, s)
		if o := w.out(); len(o) == 1 {
			p = o[0]
		}
	case 6:
		srv := tcpx.NewTcpX(nil)
		srv.AddHandler(3, func(c *tcpx.Context) {
			var d string
			_, e2 := c.Bind(&d)
			rt.Assert(e2 == nil && d == s, "a server without a marshaller binds JSON")
			e = c.Reply(1, d)
		})
		c := up(srv).Connect("c")
		c.Send(idFrame(3, want))
		rt.Idle()
		if o := c.Written(); len(o) == 1 {
			p = o[0]
		}
	}
	rt.Assert(e == nil && len(p) > 16, "packing without a marshaller works")
	b, e := tcpx.BodyBytesOf(p)
	rt.Assert(e == nil, "the frame has a body")
	rt.AssertBytesEq(b, want, "a missing marshaller encodes JSON")
	var d string
	var e1 error
	switch rt.Choose("unpack", 3) {
	case 0:
		_, e1 = tcpx.UnpackWithMarshaller(p, &d, nil)
	case 1:
		_, e1 = tcpx.NewPackx(nil).Unpack(p, &d)
	case 2:
		x := tcpx.NewTCPContext(rt.NewConn("q"), tcpx.XmlMarshaller{})
		x.Stream = p
		_, e1 = x.BindWithMarshaller(&d, nil)
	}
	rt.Assert(e1 == nil && d == s, "a missing marshaller decodes JSON")
	rt.Reach("json")
}

var errWrite = errors.New("write fails")

// key is one of three header keys, two of them those that routing uses.
func key(i int) string {
	switch i {
	case 0:
		return tcpx.HEADER_ROUTER_KEY
	case 1:
		return tcpx.HEADER_ROUTER_VALUE
	}
	return "k"
}

// C25_setget: every history of up to 4 (thorough 5) Set calls over three keys (one arbitrary) on a message that had no header, an empty one or one
// entry: Get returns the last value set, other keys keep theirs, absent keys give nil, and a map given to Set's message keeps other entries.
func C25_setget() {
	quiet()
	var msg tcpx.Message
	any := rt.Str("key", 2)
	keys := []string{"a", "b", any}
	ref := map[string]interface{}{}
	switch rt.Choose("had", 3) {
	case 1:
		msg.Header = map[string]interface{}{}
	case 2:
		msg.Header = map[string]interface{}{"a": 9}
		ref["a"] = 9
	}
	n := rt.Choose("sets", 5)
	if rt.Tier() > 0 {
		n = rt.Choose("moresets", 6)
	}
	for i := 0; i < n; i++ {
		k := keys[rt.Choose("which", 3)]
		msg.Set(k, i)
		ref[k] = i
		for _, q := range keys {
			want, ok := ref[q]
			got := msg.Get(q)
			if !ok {
				rt.Assert(got == nil, "an absent key gives nothing")
			} else {
				rt.Assert(got == want, "Get returns the value last set and other keys are left alone")
			}
		}
	}
	rt.Assert(msg.Get("never") == nil, "an absent key gives nothing")
	rt.Assert(tcpx.Message{}.Get(any) == nil, "a message without header has no values")
	rt.Reach("set")
}

// C25_route: a message built for a message ID (-20..40, the extremes and some others) or any URL pattern of 0..3 bytes, through each packer: the route type, URL pattern and message ID read back from
// the frame are those it was built with, also with a further header entry set before packing.
func C25_route() {
	quiet()
	byURL := rt.Bool("url")
	id := []int32{0, 1, 1392, -1, 1<<31 - 1, -1 << 31, 0x01020304, 0}[rt.Choose("id", 8)]
	url := rt.Str("u", rt.Choose("ulen", 4))
	letters(url)
	var msg tcpx.Message
	if !byURL && rt.Bool("small") {
		id = rt.I32("small id")
		rt.Assume(id >= -20 && id <= 40)
	}
	if byURL {
		msg = tcpx.NewURLPatternMessage(url, "b")
	} else {
		msg = tcpx.NewMessage(id, "b")
	}
	switch rt.Choose("extra", 2) {
	case 1:
		msg.Set("x", "y")
	}
	var p []byte
	var e error
	switch rt.Choose("packer", 3) {
	case 0:
		p, e = msg.Pack(tcpx.JsonMarshaller{})
	case 1:
		p, e = tcpx.PackWithMarshaller(msg, nil)
	case 2:
		p, e = tcpx.PackJSON.Pack(msg.MessageID, msg.Body, msg.Header)
	}
	rt.Assert(e == nil, "the message packs")
	t, e := tcpx.RouteTypeOf(p)
	rt.Assert(e == nil, "the route type reads back")
	i, e2 := tcpx.MessageIDOf(p)
	rt.Assert(e2 == nil, "the message ID reads back")
	b, e3 := tcpx.BodyBytesOf(p)
	rt.Assert(e3 == nil, "the body reads back")
	rt.AssertBytesEq(b, []byte(`"b"`), "the body is the one given")
	if byURL {
		rt.Assert(t == tcpx.URLPATTERN, "a message for a URL pattern selects URL routing")
		u, e := tcpx.URLPatternOf(p)
		rt.Assert(e == nil && u == url, "the URL pattern read back is the one given")
		rt.Reach("url")
		return
	}
	rt.Assert(t == tcpx.MESSAGEID, "a message for an ID selects routing by ID")
	rt.Assert(i == id, "the message ID read back is the one given")
	rt.Reach("id")
}

// C25_types: header values of every JSON type (and absent, null header, empty header) under the two routing keys: a string is returned, an absent
// key is empty, another type is an error; which of the other keys exist does not matter.
func C25_types() {
	quiet()
	h := map[string]interface{}{}
	kinds := [2]int{}
	s := rt.Str("s", 2)
	letters(s)
	for k := 0; k < 2; k++ {
		kinds[k] = rt.Choose("value", 7)
		switch kinds[k] {
		case 0: // absent
		case 1:
			h[key(k)] = s
		case 2:
			h[key(k)] = 7
		case 3:
			h[key(k)] = true
		case 4:
			h[key(k)] = nil
		case 5:
			h[key(k)] = []interface{}{"x"}
		case 6:
			h[key(k)] = map[string]interface{}{"x": "y"}
		}
	}
	if rt.Bool("more") {
		h["k"] = 1
	}
	var hb []byte
	if rt.Bool("null") {
		kinds = [2]int{}
		hb = []byte("null")
	} else {
		hb = jsonOf(h)
	}
	p := frame(1, hb, []byte("1"))
	for k := 0; k < 2; k++ {
		var got string
		var e error
		if k == 0 {
			got, e = tcpx.RouteTypeOf(p)
		} else {
			got, e = tcpx.URLPatternOf(p)
		}
		switch kinds[k] {
		case 0:
			rt.Assert(e == nil && got == "", "an absent value is empty")
			rt.Reach("absent")
		case 1:
			rt.Assert(e == nil && got == s, "a string value is returned")
			rt.Reach("string")
		default:
			rt.Assert(e != nil && got == "", "a value of another type is an error")
			rt.Reach("type")
		}
	}
}
