// Package zzvh holds the verification harnesses: one function per claim, run
// symbolically by the engine and natively for replay.
package zzvh

import (
	"encoding/json"
	"errors"

	"github.com/fwhezfwhez/tcpx"
	rt "github.com/fwhezfwhez/tcpx/zzvrt"
)

func quiet() { tcpx.SetLogMode(tcpx.RELEASE) }

// be32 is the reference big-endian encoding.
func be32(x uint32) []byte {
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}
func rd32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// frame is the reference frame: length, id, header length, body length, header, body.
func frame(id int32, header, body []byte) []byte {
	return cat(be32(uint32(12+len(header)+len(body))), be32(uint32(id)), be32(uint32(len(header))), be32(uint32(len(body))), header, body)
}

// jsonOf is the documented encoding of headers and JSON bodies.
func jsonOf(v interface{}) []byte {
	b, e := json.Marshal(v)
	if e != nil {
		panic(e)
	}
	return b
}

// idFrame is a frame routed by message ID without header entries.
func idFrame(id int32, body []byte) []byte { return frame(id, []byte("{}"), body) }

var errCodec = errors.New("codec refuses")

// recM is a codec whose output is arbitrary and which records its input.
type recM struct {
	out   []byte
	err   error
	both  bool // bytes are returned together with the error
	uerr  error
	src   interface{}
	calls int
	ucall int
	got   []byte
	dest  interface{}
}

func (m *recM) Marshal(v interface{}) ([]byte, error) {
	m.calls++
	m.src = v
	if m.err != nil {
		if m.both {
			return m.out, m.err
		}
		return nil, m.err
	}
	return m.out, nil
}
func (m *recM) Unmarshal(b []byte, dest interface{}) error {
	m.ucall++
	m.got = b
	m.dest = dest
	return m.uerr
}
func (m *recM) MarshalName() string { return "rec" }

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(rt.AssumeFailed); ok {
				panic(a)
			}
			p = true
		}
	}()
	f()
	return false
}

// src is a reader delivering b in pieces.
type src struct {
	b       []byte
	readN   func(want, avail int) int
	eofWith bool
	endErr  error
	reads   int
}

func (s *src) Read(p []byte) (int, error) {
	s.reads++
	if len(s.b) == 0 {
		return 0, s.endErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > len(s.b) {
		n = len(s.b)
	}
	if s.readN != nil {
		n = s.readN(n, len(s.b))
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.eofWith && len(s.b) == 0 {
		return n, s.endErr
	}
	return n, nil
}
