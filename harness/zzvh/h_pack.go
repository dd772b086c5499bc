package zzvh

import (
	"encoding/json"
	"encoding/xml"
	"io"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
)

var _ = json.Marshal
var _ = xml.Marshal
var _ = toml.Unmarshal
var _ = proto.Marshal
var _ = yaml.Marshal
var _ = io.EOF
var _ wrapperspb.StringValue

// sizeMax bounds symbolic payload lengths (beyond the 1024 byte buffers the
// packers start with, and beyond 16-bit lengths).
const sizeMax = 70000

// packVia packs through one of the entry points that take a codec.
func packVia(k int, id int32, h map[string]interface{}, body interface{}, m tcpx.Marshaller) ([]byte, error) {
	switch k {
	case 0:
		return tcpx.NewPackx(m).Pack(id, body, h)
	case 1:
		return tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Header: h, Body: body}, m)
	case 2:
		return tcpx.Message{MessageID: id, Header: h, Body: body}.Pack(m)
	}
	return tcpx.Pack(id, h, body, m)
}

// C01_codec: every packing entry point taking a codec; any message ID, any codec
// output of any length 0..70000, a header with one entry of any value (string of 2 bytes or none).
func C01_codec() {
	quiet()
	id := rt.I32("id")
	m := &recM{out: rt.Big("body", rt.Int("n", 0, sizeMax))}
	h := map[string]interface{}{}
	if rt.Bool("hasheader") {
		h["k"] = rt.Str("hv", 2)
	}
	k := rt.Choose("entry", 4)
	p, e := packVia(k, id, h, "payload", m)
	rt.Assert(e == nil, "packing an encodable message succeeds")
	rt.AssertBytesEq(p, frame(id, jsonOf(h), m.out), "the packed bytes are exactly the documented frame")
	rt.Assert(m.calls == 1, "the body is encoded once")
	s, ok := m.src.(string)
	rt.Assert(ok && s == "payload", "the codec gets the body")
	rt.Reach("packed")
	rt.ObsInt("len", len(p))
}

// C01_body: the entry points for an already encoded body; any ID, any body of any length 0..70000,
// header absent, empty or one entry.
func C01_body() {
	quiet()
	id := rt.I32("id")
	body := rt.Big("body", rt.Int("n", 0, sizeMax))
	var h map[string]interface{}
	if rt.Bool("hasheader") {
		h = map[string]interface{}{"k": rt.Str("hv", 1)}
	}
	var p []byte
	var e error
	want := h
	switch rt.Choose("entry", 4) {
	case 0:
		p, e = tcpx.PackJSON.PackWithBody(id, body, h)
		if h == nil {
			want = map[string]interface{}{}
		}
	case 1:
		p, e = tcpx.PackJSON.PackWithBody(id, body)
		want = map[string]interface{}{}
	case 2:
		p, e = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h}, body)
	case 3:
		p, e = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h, Body: "ignored"}, body)
	}
	rt.Assert(e == nil, "packing an encoded body succeeds")
	rt.AssertBytesEq(p, frame(id, jsonOf(want), body), "the packed bytes are exactly the documented frame")
	rt.Reach("packed")
}

// C01_merge: up to three header maps over two keys with any one-byte string values; later maps win.
func C01_merge() {
	quiet()
	n := rt.Choose("maps", 4)
	var hs []map[string]interface{}
	want := map[string]interface{}{}
	for i := 0; i < n; i++ {
		switch rt.Choose("shape", 4) {
		case 0:
			hs = append(hs, nil)
		case 1:
			v := rt.Str("va", 1)
			hs = append(hs, map[string]interface{}{"a": v})
			want["a"] = v
		case 2:
			v := rt.Str("vb", 1)
			hs = append(hs, map[string]interface{}{"b": v})
			want["b"] = v
		case 3:
			v := rt.Str("vc", 1)
			hs = append(hs, map[string]interface{}{"a": "x", "b": v})
			want["a"] = "x"
			want["b"] = v
		}
	}
	for i := range hs {
		for _, v := range hs[i] {
			rt.Assume(v.(string)[0] >= 'a' && v.(string)[0] <= 'z')
		}
	}
	id := rt.I32("id")
	var p []byte
	var e error
	body := []byte("B")
	if rt.Choose("entry", 2) == 0 {
		p, e = tcpx.NewPackx(&recM{out: body}).Pack(id, 1, hs...)
	} else {
		p, e = tcpx.PackJSON.PackWithBody(id, body, hs...)
	}
	rt.Assert(e == nil, "packing succeeds")
	rt.AssertBytesEq(p, frame(id, jsonOf(want), body), "headers are merged with later maps winning")
	rt.Reach("merged")
	rt.ObsBytes("frame", p)
}

type jbody struct {
	S string
	N int32 `json:"n"`
	B bool
	L []int8
}

// C01_json: JSON bodies: any string of up to 3 bytes, any 32-bit number, booleans, a struct, a map,
// through the JSON entry points (default codec, named codec, nil codec); no body at all; stuff and heartbeat frames.
func C01_json() {
	quiet()
	id := rt.I32("id")
	var body interface{}
	switch rt.Choose("body", 6) {
	case 0:
		body = nil
	case 1:
		body = rt.Str("s", rt.Choose("slen", 4))
	case 2:
		body = rt.Bool("bv")
	case 3:
		body = jbody{S: rt.Str("fs", 1), N: 7, B: rt.Bool("fb"), L: []int8{1, -2}}
	case 4:
		body = map[string]interface{}{"x": rt.Str("mx", 1), "y": nil}
	case 5:
		body = &jbody{S: "p", N: -5}
	}
	var hdr map[string]interface{}
	var p []byte
	var e error
	switch rt.Choose("entry", 8) {
	case 0:
		p, e = tcpx.PackJSON.Pack(id, body)
		hdr = map[string]interface{}{}
	case 1:
		p, e = tcpx.NewPackx(nil).Pack(id, body)
		hdr = map[string]interface{}{}
	case 2:
		p, e = tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Body: body}, nil)
	case 3:
		p, e = tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Body: body}, "json")
	case 4:
		p, e = tcpx.Pack(id, nil, body, tcpx.JsonMarshaller{})
	case 5:
		c := rt.NewConn("peer")
		e = tcpx.WriteJSON(c, id, body)
		w := c.Written()
		rt.Assert(len(w) == 1, "WriteJSON makes one write")
		p = w[0]
	case 6:
		e = tcpx.TCPCallOnceJSON("tcp", "peer", int(id), body)
		rt.Assert(len(rt.N.Dials) == 1, "one connection is made")
		c := rt.N.Dials[0]
		w := c.Written()
		rt.Assert(len(w) == 1, "one write is made")
		rt.Assert(c.IsClosed(), "the connection is closed afterwards")
		p = w[0]
	case 7:
		// message without body
		body = nil
		if rt.Bool("hb") {
			p = tcpx.PackHeartbeat()
			id = tcpx.DEFAULT_HEARTBEAT_MESSAGEID
		} else {
			p = tcpx.PackStuff(id)
		}
	}
	var bb []byte
	if body != nil {
		bb = jsonOf(body)
	}
	rt.Assert(e == nil, "packing a JSON value succeeds")
	rt.AssertBytesEq(p, frame(id, jsonOf(hdr), bb), "the packed bytes are exactly the documented frame")
	rt.Reach("packed")
	rt.ObsBytes("frame", p)
}

type xbody struct {
	Name string `xml:"name" toml:"name" yaml:"name"`
	N    int    `xml:"n" toml:"n" yaml:"n"`
}

// C01_others: XML, TOML, YAML and protobuf bodies (any 2-byte string field, any number) through their packers
// and by name: the body region is exactly what the codec produced.
func C01_others() {
	quiet()
	id := rt.I32("id")
	v := xbody{Name: rt.Str("name", 2), N: 3}
	for i := 0; i < 2; i++ {
		rt.Assume(v.Name[i] >= 'a' && v.Name[i] <= 'z')
	}
	pb := &wrapperspb.StringValue{Value: v.Name}
	var p, want []byte
	var e, e2 error
	byName := rt.Bool("byname")
	var body interface{} = v
	name := ""
	px := tcpx.PackJSON
	switch rt.Choose("codec", 4) {
	case 0:
		want, e2 = xml.Marshal(v)
		name, px = "xml", tcpx.PackXML
	case 1:
		want, e2 = tcpx.MarshalTOML(v)
		name, px = "toml", tcpx.PackTOML
	case 2:
		want, e2 = yaml.Marshal(v)
		name, px = "yaml", tcpx.PackYAML
	case 3:
		want, e2 = proto.Marshal(pb)
		name, px = "protobuf", tcpx.PackProtobuf
		body = pb
	}
	rt.Assume(e2 == nil)
	if byName {
		p, e = tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Header: map[string]interface{}{}, Body: body}, name)
	} else {
		p, e = px.Pack(id, body)
	}
	rt.Assert(e == nil, "packing succeeds")
	rt.AssertBytesEq(p, frame(id, []byte("{}"), want), "the packed bytes are exactly the documented frame")
	rt.Reach("packed")
}

// C01_errors: a header or body that cannot be encoded gives an error and no bytes, on every entry point and nothing is written.
func C01_errors() {
	quiet()
	id := rt.I32("id")
	m := &recM{out: []byte("ok")}
	h := map[string]interface{}{"k": 1}
	badHeader := rt.Bool("badheader")
	if badHeader {
		h["c"] = make(chan int)
	}
	badBody := rt.Bool("badbody")
	if badBody {
		m.err = errCodec
		m.both = rt.Bool("bytestoo")
	}
	rt.Assume(badHeader || badBody)
	var p []byte
	var e error
	k := rt.Choose("entry", 10)
	switch {
	case k == 9:
		rt.Assume(badBody && !badHeader)
		px := []*tcpx.Packx{tcpx.PackJSON, tcpx.PackXML, tcpx.PackTOML, tcpx.PackYAML, tcpx.PackProtobuf}
		name := []string{"json", "xml", "toml", "yaml", "protobuf"}
		i := rt.Choose("codec", 5)
		if rt.Bool("byname") {
			p, e = tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Header: h, Body: make(chan int)}, name[i])
		} else {
			p, e = px[i].Pack(id, make(chan int))
		}
	case k < 4:
		p, e = packVia(k, id, h, 1, m)
	case k == 4:
		rt.Assume(badHeader)
		p, e = tcpx.PackJSON.PackWithBody(id, []byte("x"), h)
	case k == 5:
		rt.Assume(badHeader)
		p, e = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h}, []byte("x"))
	case k == 6:
		rt.Assume(badBody && !badHeader)
		c := rt.NewConn("p")
		e = tcpx.WriteJSON(c, id, make(chan int))
		rt.Assert(len(c.Written()) == 0, "nothing is written")
	case k == 7:
		rt.Assume(badBody && !badHeader)
		c := rt.NewConn("p")
		e = tcpx.PipeJSON(c, 1, "fine", 2, make(chan int))
		rt.Assert(len(c.Written()) == 0, "nothing is written")
	case k == 8:
		rt.Assume(badBody && !badHeader)
		p, e = tcpx.PackProtobuf.Pack(id, "not a proto message")
	}
	rt.Assert(e != nil, "an unencodable message is an error")
	rt.Assert(len(p) == 0, "an unencodable message gives no bytes")
	rt.Reach("refused")
}

// C01_conc: two messages packed at the same time through any two entry points (any IDs, bodies 0..70000 bytes), every
// interleaving up to one (thorough: two) preemptions: both frames are the documented ones and nothing is shared.
func C01_conc() {
	quiet()
	rt.Races()
	rt.Explore(1 + rt.Tier())
	var ids [2]int32
	var bodies, out [2][]byte
	var errs [2]error
	var ks [2]int
	h := map[string]interface{}{"k": "v"}
	for i := 0; i < 2; i++ {
		ids[i] = rt.I32("id")
		bodies[i] = rt.Big("body", rt.Int("n", 0, sizeMax))
		ks[i] = rt.Choose("entry", 7)
	}
	rt.Assume(ks[0] <= ks[1])
	var hs [2][]byte
	pack := func(i int) {
		k := ks[i]
		hs[i] = jsonOf(h)
		switch {
		case k < 4:
			out[i], errs[i] = packVia(k, ids[i], map[string]interface{}{"k": "v"}, 1, &recM{out: bodies[i]})
		case k == 4:
			out[i], errs[i] = tcpx.PackJSON.PackWithBody(ids[i], bodies[i], map[string]interface{}{"k": "v"})
		case k == 5:
			out[i], errs[i] = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: ids[i], Header: map[string]interface{}{"k": "v"}}, bodies[i])
		case k == 6:
			out[i] = tcpx.PackStuff(ids[i])
			hs[i], bodies[i] = []byte("null"), nil
		}
	}
	if rt.Bool("parallel") {
		rt.Par(func() { pack(0) }, func() { pack(1) })
	} else {
		pack(0)
		pack(1)
	}
	for i := 0; i < 2; i++ {
		rt.Assert(errs[i] == nil, "packing succeeds")
		rt.AssertBytesEq(out[i], frame(ids[i], hs[i], bodies[i]), "each frame holds its own message only")
	}
	rt.Reach("packed both")
}
