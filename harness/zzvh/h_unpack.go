package zzvh

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// C02_any: any message ID, any codec output of length 0..70000, any one-entry header (2-byte string),
// up to 70000 bytes following the frame: unpack and every accessor give back what was packed.
func C02_any() {
	quiet()
	id := rt.I32("id")
	body := rt.Big("body", rt.Int("n", 0, sizeMax))
	m := &recM{out: body}
	h := map[string]interface{}{}
	hv := rt.Str("hv", 2)
	// text that JSON carries unchanged
	rt.Assume(hv[0] < 0x80 && hv[1] < 0x80)
	if rt.Bool("hasheader") {
		h["k"] = hv
	}
	p, e := tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Header: h, Body: 1}, m)
	rt.Assume(e == nil)
	q := cat(p, rt.Big("more", rt.Int("moren", 0, sizeMax)))
	switch rt.Choose("op", 4) {
	case 0:
		dest := 5
		msg, e := tcpx.UnpackWithMarshaller(q, &dest, m)
		rt.Assert(e == nil, "unpacking a packed frame succeeds")
		rt.Assert(msg.MessageID == id, "same message ID")
		rt.Assert(len(msg.Header) == len(h), "same header entries")
		if len(h) > 0 {
			s, ok := msg.Header["k"].(string)
			rt.Assert(ok && s == hv, "same header value")
		}
		if len(body) > 0 {
			rt.Assert(m.ucall == 1, "the codec decodes the body once")
			rt.AssertBytesEq(m.got, body, "the codec gets exactly the packed body")
			dp, ok := m.dest.(*int)
			rt.Assert(ok && dp == &dest, "the codec decodes into dest")
		} else {
			rt.Assert(m.ucall == 0, "nothing is decoded for an empty body")
		}
		b, ok := msg.Body.(int)
		rt.Assert(ok && b == 5, "the body is what dest points to")
		rt.Reach("unpacked")
	case 1:
		px := tcpx.NewPackx(m)
		dest := 5
		msg, e := px.Unpack(q, &dest)
		rt.Assert(e == nil && msg.MessageID == id, "Packx.Unpack gives the same message")
		if len(body) > 0 {
			rt.AssertBytesEq(m.got, body, "Packx.Unpack decodes exactly the body")
		}
		l, e := px.LengthOf(q)
		rt.Assert(e == nil && int(l) == len(p)-4, "LengthOf")
		i, e := px.MessageIDOf(q)
		rt.Assert(e == nil && i == id, "MessageIDOf")
		hl, e := px.HeaderLengthOf(q)
		rt.Assert(e == nil && int(hl) == len(jsonOf(h)), "HeaderLengthOf")
		bl, e := px.BodyLengthOf(q)
		rt.Assert(e == nil && int(bl) == len(body), "BodyLengthOf")
	case 2:
		hb, e := tcpx.HeaderBytesOf(q)
		rt.Assert(e == nil, "HeaderBytesOf succeeds")
		rt.AssertBytesEq(hb, jsonOf(h), "HeaderBytesOf")
		bb, e := tcpx.BodyBytesOf(q)
		rt.Assert(e == nil, "BodyBytesOf succeeds")
		rt.AssertBytesEq(bb, body, "BodyBytesOf")
		fb, e := tcpx.FirstBlockOfBytes(q)
		rt.Assert(e == nil, "FirstBlockOfBytes succeeds")
		rt.AssertBytesEq(fb, p, "FirstBlockOfBytes")
	case 3:
		hm, e := tcpx.HeaderOf(q)
		rt.Assert(e == nil && len(hm) == len(h), "HeaderOf")
		if len(h) > 0 {
			s, ok := hm["k"].(string)
			rt.Assert(ok && s == hv, "HeaderOf value")
		}
		pt := tcpx.PackType(q)
		i, e := pt.MessageID()
		rt.Assert(e == nil && i == id, "PackType.MessageID")
		ctx := tcpx.NewContext(rt.NewConn("p"), m)
		ctx.Stream = q
		bb, e := ctx.RawStream()
		rt.Assert(e == nil, "RawStream succeeds")
		rt.AssertBytesEq(bb, body, "RawStream")
	}
}

// C02_json: JSON bodies (any string of up to 2 bytes, struct, number, bool) packed, read back from a stream
// with another frame behind it, and bound through context, received block and plain unpack.
func C02_json() {
	quiet()
	id := rt.I32("id")
	s := rt.Str("s", rt.Choose("slen", 3))
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] < 0x80)
	}
	k := rt.Choose("kind", 3)
	var body interface{}
	switch k {
	case 0:
		body = s
	case 1:
		body = jbody{S: s, N: -17, B: rt.Bool("b"), L: []int8{3, -4}}
	case 2:
		body = map[string]interface{}{"x": s}
	}
	p, e := tcpx.PackJSON.Pack(id, body, map[string]interface{}{"h": "v"})
	rt.Assume(e == nil)
	r := bytes.NewReader(cat(p, []byte{0, 0, 0}))
	var bind func(dest interface{}) error
	c := rt.NewConn("p")
	c.Send(p)
	c.Send([]byte{0, 0})
	switch rt.Choose("via", 8) {
	case 0:
		b, e := tcpx.Recv(c)
		rt.Assert(e == nil, "Recv succeeds")
		bind = b.BindJSON
	case 1:
		b, e := tcpx.FirstBlockOf(r)
		rt.Assert(e == nil, "FirstBlockOf succeeds")
		ctx := tcpx.NewTCPContext(c, nil)
		ctx.Stream = b
		bind = func(d interface{}) error {
			m, e := ctx.Bind(d)
			rt.Assert(e != nil || m.MessageID == id, "Bind returns the message ID")
			return e
		}
	case 2:
		b, e := tcpx.PackXML.FirstBlockOf(r)
		rt.Assert(e == nil, "FirstBlockOf succeeds")
		ctx := tcpx.NewUDPContext(nil, nil, tcpx.XmlMarshaller{})
		ctx.Stream = b
		bind = func(d interface{}) error {
			_, e := ctx.BindWithMarshaller(d, tcpx.JsonMarshaller{})
			return e
		}
	case 3:
		i, h, b, e := tcpx.UnPackFromReader(r)
		rt.Assert(e == nil && i == id && h["h"] == "v", "UnPackFromReader")
		bind = func(d interface{}) error { return tcpx.BindJSON(b, d) }
	case 4:
		bind = func(d interface{}) error {
			m, e := tcpx.UnpackWithMarshallerName(p, d, "json")
			rt.Assert(e != nil || m.Header["h"] == "v", "header")
			return e
		}
	case 5:
		bind = func(d interface{}) error { _, e := tcpx.UnpackWithMarshaller(p, d, nil); return e }
	case 6:
		bind = func(d interface{}) error { _, e := tcpx.PackJSON.Unpack(p, d); return e }
	case 7:
		b, e := tcpx.FirstBlockOfLimitMaxByte(r, 1000)
		rt.Assert(e == nil, "FirstBlockOfLimitMaxByte succeeds")
		pt := tcpx.PackType(b)
		bind = pt.BindJSON
	}
	switch k {
	case 0:
		var d string
		rt.Assert(bind(&d) == nil, "binding succeeds")
		rt.Assert(d == s, "same string")
	case 1:
		var d jbody
		w := body.(jbody)
		rt.Assert(bind(&d) == nil, "binding succeeds")
		rt.Assert(d.S == w.S && d.N == w.N && d.B == w.B && len(d.L) == 2 && d.L[0] == 3 && d.L[1] == -4, "same struct")
	case 2:
		var d map[string]string
		rt.Assert(bind(&d) == nil, "binding succeeds")
		rt.Assert(len(d) == 1 && d["x"] == s, "same map")
	}
	rt.Reach("bound")
}

// C02_others: XML, TOML, YAML and protobuf values (2-byte string field) survive pack and unpack/bind through
// every binding function of the library, given that the codec itself round-trips.
func C02_others() {
	quiet()
	id := rt.I32("id")
	v := xbody{Name: rt.Str("name", 2), N: 3}
	for i := 0; i < 2; i++ {
		rt.Assume(v.Name[i] >= 'a' && v.Name[i] <= 'z')
	}
	pb := &wrapperspb.StringValue{Value: v.Name}
	var m tcpx.Marshaller
	var name string
	var body interface{} = v
	k := rt.Choose("codec", 4)
	switch k {
	case 0:
		m, name = tcpx.XmlMarshaller{}, "xml"
	case 1:
		m, name = tcpx.TomlMarshaller{}, "toml"
	case 2:
		m, name = tcpx.YamlMarshaller{}, "yaml"
	case 3:
		m, name = tcpx.ProtobufMarshaller{}, "protobuf"
		body = pb
	}
	p, e := tcpx.Message{MessageID: id, Body: body}.Pack(m)
	rt.Assert(e == nil, "packing succeeds")
	pt := tcpx.PackType(p)
	var d xbody
	var dp wrapperspb.StringValue
	var dest interface{} = &d
	if k == 3 {
		dest = &dp
	}
	switch rt.Choose("via", 4) {
	case 0:
		_, e = tcpx.UnpackWithMarshaller(p, dest, m)
	case 1:
		_, e = tcpx.UnpackWithMarshallerName(p, dest, name)
	case 2:
		ctx := tcpx.NewContext(rt.NewConn("p"), m)
		ctx.Stream = p
		_, e = ctx.Bind(dest)
	case 3:
		switch k {
		case 0:
			e = pt.BindXML(&d)
		case 1:
			e = pt.BindTOML(&d)
		case 2:
			e = pt.BindYAML(&d)
		case 3:
			e = pt.BindProtobuf(&dp)
		}
	}
	rt.Assert(e == nil, "binding succeeds")
	if k == 3 {
		rt.Assert(dp.Value == v.Name, "same protobuf value")
	} else {
		rt.Assert(d.Name == v.Name && d.N == 3, "same value")
	}
	rt.Reach("bound")
}

// C03_fields: any byte slice of length 0..70000 with any content: the fixed-position accessors.
func C03_fields() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	b := rt.Big("b", n)
	switch rt.Choose("op", 7) {
	case 0:
		v, e := tcpx.LengthOf(b)
		if n >= 4 {
			rt.Assert(e == nil && uint32(v) == rd32(b), "LengthOf is the first field")
			rt.Reach("length")
		} else {
			rt.Assert(e != nil, "LengthOf needs four bytes")
		}
	case 1:
		v, e := tcpx.MessageIDOf(b)
		if n >= 8 {
			rt.Assert(e == nil && uint32(v) == rd32(b[4:]), "MessageIDOf is the second field")
			rt.Reach("id")
		} else {
			rt.Assert(e != nil, "MessageIDOf needs eight bytes")
		}
	case 2:
		v, e := tcpx.HeaderLengthOf(b)
		if n >= 12 {
			rt.Assert(e == nil && uint32(v) == rd32(b[8:]), "HeaderLengthOf is the third field")
			rt.Reach("hlen")
		} else {
			rt.Assert(e != nil, "HeaderLengthOf needs twelve bytes")
		}
	case 3:
		v, e := tcpx.BodyLengthOf(b)
		if n >= 16 {
			rt.Assert(e == nil && uint32(v) == rd32(b[12:]), "BodyLengthOf is the fourth field")
			rt.Reach("blen")
		} else {
			rt.Assert(e != nil, "BodyLengthOf needs sixteen bytes")
		}
	case 4:
		v, e := tcpx.HeaderBytesOf(b)
		if n < 12 {
			rt.Assert(e != nil, "HeaderBytesOf needs the fixed fields")
			return
		}
		hl := int(int32(rd32(b[8:])))
		if hl < 0 || 16+hl > n {
			rt.Assert(e != nil, "a negative or too large header length is an error")
			rt.Assert(len(v) == 0, "no bytes with an error")
			rt.Reach("badheader")
		} else {
			rt.Assert(e == nil, "HeaderBytesOf succeeds when the header is there")
			rt.AssertBytesEq(v, b[16:16+hl], "HeaderBytesOf is the declared header region")
			rt.Reach("header")
		}
	case 5:
		v, e := tcpx.BodyBytesOf(b)
		if n < 16 {
			rt.Assert(e != nil, "BodyBytesOf needs the fixed fields")
			return
		}
		hl := int(int32(rd32(b[8:])))
		bl := int(int32(rd32(b[12:])))
		if hl < 0 || bl < 0 || 16+hl+bl > n {
			rt.Assert(e != nil, "negative or too large lengths are an error")
			rt.Assert(len(v) == 0, "no bytes with an error")
			rt.Reach("badbody")
		} else {
			rt.Assert(e == nil, "BodyBytesOf succeeds when the body is there")
			rt.AssertBytesEq(v, b[16+hl:16+hl+bl], "BodyBytesOf is the declared body region")
			rt.Reach("body")
		}
	case 6:
		v, e := tcpx.FirstBlockOfBytes(b)
		if n < 16 {
			rt.Assert(e != nil, "FirstBlockOfBytes needs the fixed fields")
			return
		}
		l := int(rd32(b))
		if l+4 > n {
			rt.Assert(e != nil, "a block longer than the buffer is an error")
			rt.Assert(len(v) == 0, "no bytes with an error")
			rt.Reach("badblock")
		} else {
			rt.Assert(e == nil, "FirstBlockOfBytes succeeds when the block is there")
			rt.AssertBytesEq(v, b[:l+4], "FirstBlockOfBytes is the declared block")
			rt.Reach("block")
		}
	}
}

// C03_header: any slice of 12..21 bytes (quick: ..20): the JSON header accessors never panic and agree with decoding
// the declared header region.
func C03_header() {
	quiet()
	n := 12 + rt.Choose("n", 9+rt.Tier())
	b := rt.Bytes("b", n)
	op := rt.Choose("op", 3)
	hl := int(int32(rd32(b[8:])))
	fits := hl >= 0 && 16+hl <= n
	var want map[string]interface{}
	var we error = errCodec
	if fits {
		we = json.Unmarshal(b[16:16+hl], &want)
	}
	var e error
	switch op {
	case 0:
		var h map[string]interface{}
		h, e = tcpx.HeaderOf(b)
		rt.Assert((e == nil) == (we == nil), "HeaderOf succeeds exactly when the declared header is valid")
		rt.Assert(e != nil || len(h) == len(want), "HeaderOf has the entries of the header")
	case 1:
		_, e = tcpx.URLPatternOf(b)
		rt.Assert(we == nil || e != nil, "no URL pattern from an invalid header")
	case 2:
		pt := tcpx.PackType(b)
		_, e = pt.URLPattern()
		rt.Assert(we == nil || e != nil, "no URL pattern from an invalid header")
		_, e = tcpx.RouteTypeOf(b)
		rt.Assert(we == nil || e != nil, "no route type from an invalid header")
	}
	if e == nil {
		rt.Reach("valid")
	} else {
		rt.Reach("invalid")
	}
}

// C03_route: headers holding route type and URL pattern of any JSON kind (2-byte strings, numbers, null, bool,
// object, array, absent): strings are returned, absent ones are empty, other kinds are errors.
func C03_route() {
	quiet()
	kinds := func(name string) (txt string, val string, ok bool) {
		switch rt.Choose(name, 7) {
		case 0:
			return "", "", true
		case 1:
			s := rt.Str(name+"s", 2)
			rt.Assume(s[0] >= ' ' && s[0] < 0x7f && s[0] != '"' && s[0] != '\\')
			rt.Assume(s[1] >= ' ' && s[1] < 0x7f && s[1] != '"' && s[1] != '\\')
			return `"` + s + `"`, s, true
		case 2:
			return "12", "", false
		case 3:
			return "null", "", false
		case 4:
			return "true", "", false
		case 5:
			return "{}", "", false
		}
		return `["a"]`, "", false
	}
	t1, v1, ok1 := kinds("type")
	t2, v2, ok2 := kinds("url")
	js := "{"
	if t1 != "" {
		js += `"Router-Type":` + t1
	}
	if t2 != "" {
		if t1 != "" {
			js += ","
		}
		js += `"Router-Pattern-Value":` + t2
	}
	js += "}"
	b := frame(3, []byte(js), rt.Bytes("body", 2))
	t, e := tcpx.RouteTypeOf(b)
	rt.Assert((e == nil) == ok1, "RouteTypeOf: an error exactly for a value that is not a string")
	rt.Assert(e != nil || t == v1, "RouteTypeOf: the value in the header, empty if absent")
	u, e := tcpx.URLPatternOf(b)
	rt.Assert((e == nil) == ok2, "URLPatternOf: an error exactly for a value that is not a string")
	rt.Assert(e != nil || u == v2, "URLPatternOf: the value in the header, empty if absent")
	pt := tcpx.PackType(b)
	u, e = pt.URLPattern()
	rt.Assert((e == nil) == ok2, "PackType.URLPattern: an error exactly for a value that is not a string")
	rt.Assert(e != nil || u == v2, "PackType.URLPattern: the value in the header, empty if absent")
	rt.Reach("read")
	rt.ObsStr("t", t)
	rt.ObsStr("u", u)
}

func unpackVia(k int, b []byte, dest interface{}, m *recM) (tcpx.Message, error) {
	switch k {
	case 0:
		return tcpx.UnpackWithMarshaller(b, dest, m)
	case 1:
		return tcpx.NewPackx(m).Unpack(b, dest)
	case 2:
		ctx := tcpx.NewContext(rt.NewConn("p"), m)
		ctx.Stream = b
		return ctx.Bind(dest)
	}
	ctx := tcpx.NewContext(rt.NewConn("p"), nil)
	ctx.Stream = b
	return ctx.BindWithMarshaller(dest, m)
}

// unpackSpec: does b declare lengths that fit?
func unpackSpec(b []byte) (fits bool, l, hl, bl int) {
	n := len(b)
	if n < 16 {
		return false, 0, 0, 0
	}
	l = int(rd32(b))
	hl = int(rd32(b[8:]))
	bl = int(rd32(b[12:]))
	return l >= 12 && l+4 <= n && 16+hl+bl <= l+4, l, hl, bl
}

// C04_lengths: any slice of length 0..70000 with any content whose declared header is empty or whose declared
// lengths do not fit: unpack and bind report errors exactly for the latter, and decode exactly the body region.
func C04_lengths() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	b := rt.Big("b", n)
	fits, _, hl, bl := unpackSpec(b)
	rt.Assume(!fits || hl == 0)
	m := &recM{}
	if rt.Bool("refuse") {
		m.uerr = errCodec
	}
	var dest int
	msg, e := unpackVia(rt.Choose("via", 4), b, &dest, m)
	if !fits {
		rt.Assert(e != nil, "a short or inconsistent frame is an error")
		rt.Assert(m.ucall == 0, "nothing is decoded from an inconsistent frame")
		rt.Reach("refused")
		return
	}
	if bl == 0 {
		rt.Assert(m.ucall == 0, "the codec is not called for an empty body")
		rt.Assert(e == nil, "a frame without body unpacks")
		rt.Reach("empty")
	} else {
		rt.Assert(m.ucall == 1, "the codec is called once")
		rt.AssertBytesEq(m.got, b[16+hl:16+hl+bl], "the codec is given exactly the declared body region")
		rt.Assert((e == nil) == (m.uerr == nil), "an error of the codec is reported")
		rt.Reach("decoded")
	}
	rt.Assert(e != nil || uint32(msg.MessageID) == rd32(b[4:]), "the message ID is the one in the frame")
}

// C04_header: any slice of 16..20 bytes (thorough: ..21), a codec that accepts or refuses: never a panic, an error exactly when the lengths do not fit,
// the header is not valid JSON or the codec refuses, and the codec sees exactly the body region, once.
func C04_header() {
	quiet()
	n := 16 + rt.Choose("n", 5+rt.Tier())
	b := rt.Bytes("b", n)
	fits, _, hl, bl := unpackSpec(b)
	m := &recM{}
	if rt.Bool("refuse") {
		m.uerr = errCodec
	}
	var dest int
	var want map[string]interface{}
	we := error(nil)
	if fits && hl > 0 {
		we = json.Unmarshal(b[16:16+hl], &want)
	}
	_, e := unpackVia(0, b, &dest, m)
	good := fits && we == nil
	rt.Assert((e == nil) == (good && (bl == 0 || m.uerr == nil)), "an error exactly for an inconsistent frame, an invalid header or a body the codec refuses")
	if good && bl > 0 {
		rt.Assert(m.ucall == 1, "the codec is called once")
		rt.AssertBytesEq(m.got, b[16+hl:16+hl+bl], "the codec is given exactly the declared body region")
		rt.Reach("decoded")
	}
	if !good {
		rt.Assert(m.ucall == 0, "nothing is decoded")
		rt.Reach("refused")
	}
}

// C04_block: any received block of 0..21 bytes and any JSON, XML, TOML, YAML or protobuf binding of it: an error or success,
// never a panic; also with a nil destination.
func C04_block() {
	quiet()
	n := rt.Choose("n", 22)
	b := rt.Bytes("b", n)
	if n >= 16 {
		rt.Assume(rd32(b[8:]) == 0 || rd32(b[8:]) > 5)
	}
	k := rt.Choose("via", 6)
	if n >= 16 && k >= 1 && k <= 4 {
		// what these codecs make of arbitrary bytes is theirs
		rt.Assume(rd32(b[12:]) > 5)
	}
	pt := tcpx.PackType(b)
	var e error
	switch k {
	case 0:
		var s string
		e = pt.BindJSON(&s)
	case 1:
		var x xbody
		e = pt.BindXML(&x)
	case 2:
		var x xbody
		e = pt.BindTOML(&x)
	case 3:
		var x xbody
		e = pt.BindYAML(&x)
	case 4:
		var x wrapperspb.StringValue
		e = pt.BindProtobuf(&x)
	case 5:
		_, e = tcpx.UnpackWithMarshaller(b, nil, nil)
	}
	if k < 5 && n < 16 {
		rt.Assert(e != nil, "a block shorter than a frame is an error")
	}
	rt.Reach("survived")
}

var errBroken = errors.New("read: connection reset by peer")

// cuts returns a chunk chooser: reads from..from+k-1 take any number of bytes, the others all.
func cuts(from, k int) func(want, avail int) int {
	i := 0
	return func(want, avail int) int {
		i++
		if i <= from || i > from+k {
			return want
		}
		return rt.Int("chunk", 0, want)
	}
}

func readBlock(k int, r io.Reader) ([]byte, error) {
	switch k {
	case 0:
		return tcpx.FirstBlockOf(r)
	case 1:
		return tcpx.UnpackToBlockFromReader(r)
	case 2:
		return tcpx.FirstBlockOfLimitMaxByte(r, 0)
	case 3:
		return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, sizeMax)
	case 4:
		return tcpx.PackJSON.FirstBlockOfLimitMaxByte(r, sizeMax)
	}
	return tcpx.PackJSON.FirstBlockOf(r)
}

// C05_split: two frames with any payloads of any length 0..70000, a window of 2 (thorough 3) reads at the 1st, 2nd or 3rd read taking
// any number of bytes (also none; 1, thorough 2, reads for the wrapping entry points), the end of the stream after the last byte or together with it: the blocks are the frames, in order, nothing beyond is consumed.
func C05_split() {
	quiet()
	f1 := func() []byte { n := rt.Int("n1", 0, sizeMax); return cat(be32(uint32(n)), rt.Big("p1", n)) }()
	f2 := func() []byte { n := rt.Int("n2", 0, sizeMax); return cat(be32(uint32(n)), rt.Big("p2", n)) }()
	k := rt.Choose("via", 6)
	win := cuts(0, 1+rt.Tier())
	if k == 0 || k == 2 {
		win = cuts(rt.Choose("from", 3), 2+rt.Tier())
	}
	s := &src{b: cat(f1, f2), readN: win, eofWith: rt.Bool("eofwith"), endErr: io.EOF}
	b1, e := readBlock(k, s)
	rt.Assert(e == nil, "the first frame is read")
	rt.AssertBytesEq(b1, f1, "the first block is the first frame")
	rt.Assert(len(s.b) == len(f2), "nothing beyond the first frame is consumed")
	b2, e := readBlock(k, s)
	rt.Assert(e == nil, "the second frame is read")
	rt.AssertBytesEq(b2, f2, "the second block is the second frame")
	rt.AssertBytesEq(b1, f1, "the first block is unchanged")
	_, e = readBlock(k, s)
	rt.Assert(e == io.EOF, "a clean end is end-of-file")
	rt.Reach("split")
}

// C05_cut: one frame of any length cut at any byte, or failing there with another error, split by 2 (thorough 3) symbolic reads: an error and no block.
func C05_cut() {
	quiet()
	n := rt.Int("n", 0, sizeMax)
	f := cat(be32(uint32(n)), rt.Big("p", n))
	at := rt.Int("at", 0, sizeMax+4)
	rt.Assume(at < len(f))
	end := io.EOF
	if rt.Bool("broken") {
		end = errBroken
	}
	s := &src{b: f[:at], readN: cuts(0, 2+rt.Tier()), eofWith: rt.Bool("eofwith"), endErr: end}
	b, e := readBlock(rt.Choose("via", 6), s)
	rt.Assert(e != nil, "an incomplete frame is an error")
	rt.Assert(len(b) == 0, "no partial block is returned")
	if end == io.EOF && at == 0 {
		rt.Assert(e == io.EOF, "a clean end is end-of-file")
		rt.Reach("clean")
	}
	if end != io.EOF {
		rt.Assert(e != io.EOF, "a failure is not reported as a clean end")
		rt.Reach("broken")
	}
	rt.Reach("cut")
}

// C05_negative: any negative declared length: an error, no block, no panic, nothing but the length consumed.
func C05_negative() {
	quiet()
	l := rt.U32("len")
	rt.Assume(l >= 1<<31)
	s := &src{b: cat(be32(l), rt.Big("p", rt.Int("n", 0, 100))), endErr: io.EOF}
	n := len(s.b)
	b, e := readBlock(rt.Choose("via", 6), s)
	rt.Assert(e != nil && len(b) == 0, "a negative length is an error")
	rt.Assert(len(s.b) == n-4, "nothing but the length is consumed")
	rt.Reach("refused")
}

// C06_limit: any declared length (32 bits) and any positive maximum up to 70000: refused with only the length consumed, or accepted unchanged.
func C06_limit() {
	quiet()
	max := int32(rt.Int("max", 1, sizeMax))
	l := rt.I32("len")
	rt.Assume(l >= 0)
	n := int(l)
	if l > max {
		n = 50
	}
	s := &src{b: cat(be32(uint32(l)), rt.Big("p", n)), endErr: io.EOF}
	f := s.b
	var b []byte
	var e error
	switch rt.Choose("via", 3) {
	case 0:
		b, e = tcpx.FirstBlockOfLimitMaxByte(s, max)
	case 1:
		b, e = tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(s, int(max))
	case 2:
		b, e = tcpx.PackJSON.FirstBlockOfLimitMaxByte(s, max)
	}
	if l > max {
		rt.Assert(e != nil && len(b) == 0, "a block beyond the maximum is refused")
		rt.Assert(len(s.b) == len(f)-4, "none of its payload is read")
		rt.Reach("refused")
	} else {
		rt.Assert(e == nil, "a block within the maximum is accepted")
		rt.AssertBytesEq(b, f, "it is returned unchanged")
		rt.Reach("accepted")
	}
}

// C06_nolimit: any non-positive maximum, any length up to 70000: accepted unchanged.
func C06_nolimit() {
	quiet()
	max := rt.I32("max")
	rt.Assume(max <= 0)
	n := rt.Int("n", 0, sizeMax)
	s := &src{b: cat(be32(uint32(n)), rt.Big("p", n)), endErr: io.EOF}
	f := s.b
	var b []byte
	var e error
	if rt.Bool("method") {
		b, e = tcpx.PackJSON.FirstBlockOfLimitMaxByte(s, max)
	} else {
		b, e = tcpx.FirstBlockOfLimitMaxByte(s, max)
	}
	rt.Assert(e == nil, "without a maximum every block is accepted")
	rt.AssertBytesEq(b, f, "it is returned unchanged")
	rt.Reach("accepted")
}

// C02_reader: any message ID, any body of 0..70000 bytes, a header with or without an entry, read back from a stream that
// delivers the frame whole or cut in two at any place and carries up to 70000 further bytes, through every reading entry
// point: the same message comes out and nothing behind it is consumed; a second message behind it is read next.
func C02_reader() {
	quiet()
	id, id2 := rt.I32("id"), rt.I32("id2")
	body := rt.Big("body", rt.Int("n", 0, sizeMax))
	h := map[string]interface{}{}
	if rt.Bool("hasheader") {
		h["k"] = "v"
	}
	p, e := tcpx.PackJSON.PackWithBody(id, body, h)
	rt.Assume(e == nil)
	p2, e := tcpx.PackJSON.PackWithBody(id2, []byte("second"))
	rt.Assume(e == nil)
	s := &src{b: cat(p, p2), endErr: io.EOF}
	cut := -1
	if rt.Bool("split") {
		cut = rt.Int("cut", 1, 16+6+sizeMax)
		first := true
		s.readN = func(want, avail int) int {
			if first && cut < want {
				first = false
				return cut
			}
			first = false
			return want
		}
	}
	via := rt.Choose("via", 5)
	c := rt.NewConn("peer")
	read := func() ([]byte, error) {
		switch via {
		case 1:
			return tcpx.FirstBlockOf(s)
		case 2:
			return tcpx.FirstBlockOfLimitMaxByte(s, int32(len(p)+len(p2)))
		case 3:
			return tcpx.UnpackToBlockFromReader(s)
		}
		b, e := tcpx.Recv(c)
		return []byte(b), e
	}
	if via == 4 {
		c.ReadN = s.readN
		c.Send(p)
		c.Send(p2)
	}
	if via == 0 {
		i, hd, b, e := tcpx.UnPackFromReader(s)
		rt.Assert(e == nil, "reading a packed frame succeeds")
		rt.Assert(i == id && len(hd) == len(h), "same ID and header")
		rt.AssertBytesEq(b, body, "same body")
		i, _, b, e = tcpx.UnPackFromReader(s)
		rt.Assert(e == nil && i == id2, "the second message is read next")
		rt.AssertBytesEq(b, []byte("second"), "the second body")
		rt.Reach("from reader")
		return
	}
	b, e := read()
	rt.Assert(e == nil, "reading a packed frame succeeds")
	rt.AssertBytesEq(b, p, "the block is the packed frame")
	m := &recM{}
	x := 0
	msg, e := tcpx.UnpackWithMarshaller(b, &x, m)
	rt.Assert(e == nil && msg.MessageID == id && len(msg.Header) == len(h), "same ID and header")
	if len(body) > 0 {
		rt.AssertBytesEq(m.got, body, "same body")
	}
	b, e = read()
	rt.Assert(e == nil, "the second message is read next")
	rt.AssertBytesEq(b, p2, "the second block")
	rt.Reach("blocks")
}
