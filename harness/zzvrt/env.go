// Package zzvrt is the environment the checks put around tcpx: symbolic inputs,
// assertions, and stand-ins for the network.  The symbolic engine interprets
// this package (a few functions marked "engine:" are intercepted); the native
// replay binary compiles the same files.
package zzvrt

import (
	"crypto/tls"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// ---------------------------------------------------------------- network

// NetState is the world of fake sockets, reset for every case.
type NetState struct {
	mu        sync.Mutex
	Listeners []*FListener
	Packets   []*FPacketConn
	ListenErr error
	Dials     []*FConn
	DialErr   error
	OnDial    func(c *FConn)
	CertErr   error
	Exits     []int
	SigChans  []chan<- os.Signal
	Opened    int
	sigs      [][]os.Signal
	// SigOnNotify arrives as soon as it is subscribed to
	SigOnNotify os.Signal
}

var N = &NetState{}

func resetNet() { N = &NetState{} }

type FAddr struct{ Net, S string }

func (a FAddr) Network() string { return a.Net }
func (a FAddr) String() string  { return a.S }

type closedError struct{}

func (closedError) Error() string        { return "use of closed network connection" }
func (closedError) Is(target error) bool { return target == net.ErrClosed }

// NetErr is a network error of any kind.
type NetErr struct{ Temp, TO bool }

func (e NetErr) Error() string {
	if e.TO {
		return "i/o timeout"
	}
	return "network error"
}
func (e NetErr) Is(target error) bool { return e.TO && target == os.ErrDeadlineExceeded }
func (e NetErr) Temporary() bool { return e.Temp }
func (e NetErr) Timeout() bool   { return e.TO }

var ErrClosedConn error = closedError{}
var ErrAddrInUse = errors.New("address already in use")

type FListener struct {
	mu       sync.Mutex
	wait     chan struct{}
	q        []*FConn
	Closed   bool
	Network  string
	Address  string
	TLS      bool
	TLSConf  *tls.Config
	Accepted int
	// Refuse: next Accept fails with this error
	AcceptErr error
}

func Listen(network, addr string) (net.Listener, error) {
	N.mu.Lock()
	defer N.mu.Unlock()
	if N.ListenErr != nil {
		return nil, N.ListenErr
	}
	for _, l := range N.Listeners {
		if !l.isClosed() && l.Network == network && l.Address == addr {
			return nil, ErrAddrInUse
		}
	}
	l := &FListener{Network: network, Address: addr, wait: make(chan struct{})}
	N.Listeners = append(N.Listeners, l)
	N.Opened++
	return l, nil
}
func TLSListen(network, addr string, cfg *tls.Config) (net.Listener, error) {
	if cfg == nil || len(cfg.Certificates) == 0 && cfg.GetCertificate == nil && cfg.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, e := Listen(network, addr)
	if e != nil {
		return nil, e
	}
	return TLSNewListener(l, cfg), nil
}

// TLSNewListener marks a listener as encrypting.
func TLSNewListener(l net.Listener, cfg *tls.Config) net.Listener {
	f := l.(*FListener)
	f.mu.Lock()
	f.TLS, f.TLSConf = true, cfg
	f.mu.Unlock()
	return l
}

// LoadX509KeyPair gives a certificate naming its files, or fails as told.
func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	if N.CertErr != nil {
		return tls.Certificate{}, N.CertErr
	}
	return tls.Certificate{Certificate: [][]byte{[]byte(certFile), []byte(keyFile)}}, nil
}
func (l *FListener) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.Closed
}

// IsClosed reports whether the listener has been closed.
func (l *FListener) IsClosed() bool { return l.isClosed() }

func (l *FListener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.Closed {
			l.mu.Unlock()
			return nil, ErrClosedConn
		}
		if l.AcceptErr != nil {
			e := l.AcceptErr
			l.mu.Unlock()
			return nil, e
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.Accepted++
			l.mu.Unlock()
			return c, nil
		}
		w := l.wait
		l.mu.Unlock()
		<-w
	}
}
func (l *FListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.Closed {
		return ErrClosedConn
	}
	l.Closed = true
	close(l.wait)
	l.wait = make(chan struct{})
	return nil
}
func (l *FListener) Addr() net.Addr { return FAddr{l.Network, l.Address} }

// Connect makes a client connection arrive; it is accepted when the server
// next calls Accept.
func (l *FListener) Connect(remote string) *FConn {
	c := NewConn(remote)
	l.Push(c)
	return c
}
func (l *FListener) Push(c *FConn) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.q = append(l.q, c)
	close(l.wait)
	l.wait = make(chan struct{})
}

// OpenListener finds the open listener of an address.
func OpenListener(network, addr string) *FListener {
	N.mu.Lock()
	defer N.mu.Unlock()
	for i := len(N.Listeners) - 1; i >= 0; i-- {
		l := N.Listeners[i]
		if l.Network == network && l.Address == addr && !l.isClosed() {
			return l
		}
	}
	return nil
}

// TryConnect connects a client unless the listener is closed.
func (n *NetState) TryConnect(l *FListener, remote string) *FConn {
	c := NewConn(remote)
	l.Push(c)
	return c
}

// FConn is the server side of a scripted connection.
type FConn struct {
	mu     sync.Mutex
	wait   chan struct{}
	in     [][]byte
	eof    bool
	inErr  error
	remote string

	// ReadN decides how many bytes a Read returns (nil: as many as possible).
	ReadN func(want, avail int) int
	// EOFWithData: the last bytes are returned together with io.EOF
	EOFWithData bool
	// WriteN decides how a Write is split; returns bytes taken and error
	WriteN func(p []byte) (int, error)

	Closed      bool
	CloseCount  int
	Writes      [][]byte
	ReadDL      time.Time
	WriteDL     time.Time
	DLCalls     int
	Consumed    int
	WriteClosed int // writes attempted after close
	OnClose     func()
	CloseErr    error // what the first Close returns; the connection is closed all the same
}

func NewConn(remote string) *FConn {
	return &FConn{wait: make(chan struct{}), remote: remote}
}
func (c *FConn) wake() {
	close(c.wait)
	c.wait = make(chan struct{})
}

// Send queues bytes for the server to read.
func (c *FConn) Send(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return
	}
	c.in = append(c.in, b)
	c.wake()
}

// SendEOF ends the client's stream.
func (c *FConn) SendEOF() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.wake()
}

// SendErr makes reads fail with e after the queued bytes.
func (c *FConn) SendErr(e error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inErr = e
	c.wake()
}
func (c *FConn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.Closed {
			c.mu.Unlock()
			return 0, ErrClosedConn
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 {
			s := c.in[0]
			n := len(p)
			if n > len(s) {
				n = len(s)
			}
			if c.ReadN != nil {
				n = c.ReadN(n, len(s))
			}
			copy(p[:n], s[:n])
			if n == len(s) {
				c.in = c.in[1:]
			} else {
				c.in[0] = s[n:]
			}
			c.Consumed += n
			var e error
			if c.EOFWithData && c.eof && len(c.in) == 0 {
				e = io.EOF
			}
			c.mu.Unlock()
			return n, e
		}
		if c.inErr != nil {
			e := c.inErr
			c.mu.Unlock()
			return 0, e
		}
		if c.eof {
			c.mu.Unlock()
			return 0, io.EOF
		}
		w := c.wait
		c.mu.Unlock()
		<-w
	}
}
func (c *FConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Closed {
		c.WriteClosed++
		return 0, ErrClosedConn
	}
	n := len(p)
	var e error
	if c.WriteN != nil {
		n, e = c.WriteN(p)
	}
	if n > 0 || e == nil {
		b := make([]byte, n)
		copy(b, p[:n])
		c.Writes = append(c.Writes, b)
	}
	return n, e
}
func (c *FConn) Close() error {
	c.mu.Lock()
	f := c.OnClose
	c.CloseCount++
	if c.Closed {
		c.mu.Unlock()
		return ErrClosedConn
	}
	c.Closed = true
	c.wake()
	c.mu.Unlock()
	if f != nil {
		f()
	}
	return c.CloseErr
}

// IsClosed reports whether the server closed the connection.
func (c *FConn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Closed
}

// Written returns the writes so far.
func (c *FConn) Written() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.Writes...)
}
func (c *FConn) LocalAddr() net.Addr  { return FAddr{"tcp", "127.0.0.1:9"} }
func (c *FConn) RemoteAddr() net.Addr { return FAddr{"tcp", c.remote} }
func (c *FConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ReadDL, c.WriteDL = t, t
	c.DLCalls++
	return nil
}
func (c *FConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ReadDL = t
	c.DLCalls++
	return nil
}
func (c *FConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.WriteDL = t
	c.DLCalls++
	return nil
}

// Dial hands out a fresh connection (or DialErr) and records it.
func Dial(network, addr string) (net.Conn, error) {
	N.mu.Lock()
	defer N.mu.Unlock()
	if N.DialErr != nil {
		return nil, N.DialErr
	}
	c := NewConn(addr)
	N.Dials = append(N.Dials, c)
	if N.OnDial != nil {
		N.OnDial(c)
	}
	return c, nil
}
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }
func TLSDial(network, addr string, cfg *tls.Config) (net.Conn, error)     { return Dial(network, addr) }

// ---------------------------------------------------------------- packets

type Datagram struct {
	B    []byte
	Addr net.Addr
	Err  error
}
type FPacketConn struct {
	mu      sync.Mutex
	wait    chan struct{}
	q       []Datagram
	Closed  bool
	Network string
	Address string
	Sent    []Datagram
	WriteEr error
	Tries   int // writes attempted
	ReadDL  time.Time
	WriteDL time.Time
	Reads   int
	errs    int
}

func ListenPacket(network, addr string) (net.PacketConn, error) {
	N.mu.Lock()
	defer N.mu.Unlock()
	if N.ListenErr != nil {
		return nil, N.ListenErr
	}
	for _, l := range N.Packets {
		if !l.IsClosed() && l.Network == network && l.Address == addr {
			return nil, ErrAddrInUse
		}
	}
	p := &FPacketConn{Network: network, Address: addr, wait: make(chan struct{})}
	N.Packets = append(N.Packets, p)
	N.Opened++
	return p, nil
}

// OpenPacket finds the open packet socket of an address.
func OpenPacket(network, addr string) *FPacketConn {
	N.mu.Lock()
	defer N.mu.Unlock()
	for i := len(N.Packets) - 1; i >= 0; i-- {
		l := N.Packets[i]
		if l.Network == network && l.Address == addr && !l.IsClosed() {
			return l
		}
	}
	return nil
}
func (p *FPacketConn) IsClosed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Closed
}
func (p *FPacketConn) wake() {
	close(p.wait)
	p.wait = make(chan struct{})
}
func (p *FPacketConn) Deliver(b []byte, from string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.q = append(p.q, Datagram{B: b, Addr: FAddr{"udp", from}})
	p.wake()
}
func (p *FPacketConn) DeliverErr(e error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.q = append(p.q, Datagram{Err: e})
	p.wake()
}
func (p *FPacketConn) ReadFrom(b []byte) (int, net.Addr, error) {
	for {
		p.mu.Lock()
		if p.Closed {
			p.errs++
			stuck := p.errs > 20
			p.mu.Unlock()
			if stuck {
				// a loop that spins on a closed socket: park it, the
				// harness decides what that means
				SpinPark()
			}
			return 0, nil, ErrClosedConn
		}
		if len(p.q) > 0 {
			d := p.q[0]
			p.q = p.q[1:]
			p.Reads++
			p.mu.Unlock()
			if d.Err != nil {
				return 0, nil, d.Err
			}
			n := copy(b, d.B)
			return n, d.Addr, nil
		}
		w := p.wait
		p.mu.Unlock()
		<-w
	}
}

var spinChan chan int

// SpinPark blocks for ever (stands for a busy loop).
func SpinPark() {
	spins++
	<-make(chan int)
}

var spins int

func (p *FPacketConn) WriteTo(b []byte, a net.Addr) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Tries++
	if p.Closed {
		return 0, ErrClosedConn
	}
	if p.WriteEr != nil {
		return 0, p.WriteEr
	}
	c := make([]byte, len(b))
	copy(c, b)
	p.Sent = append(p.Sent, Datagram{B: c, Addr: a})
	return len(b), nil
}
func (p *FPacketConn) Written() []Datagram {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Datagram(nil), p.Sent...)
}
func (p *FPacketConn) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.Closed {
		return ErrClosedConn
	}
	p.Closed = true
	p.wake()
	return nil
}
func (p *FPacketConn) LocalAddr() net.Addr { return FAddr{p.Network, p.Address} }
func (p *FPacketConn) SetDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.ReadDL, p.WriteDL = t, t
	return nil
}
func (p *FPacketConn) SetReadDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.ReadDL = t
	return nil
}
func (p *FPacketConn) SetWriteDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.WriteDL = t
	return nil
}

// ---------------------------------------------------------------- process

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	N.mu.Lock()
	N.SigChans = append(N.SigChans, c)
	N.sigs = append(N.sigs, sig)
	s := N.SigOnNotify
	N.mu.Unlock()
	if s != nil {
		N.Raise(s)
	}
}

// SignalStop ends a subscription.
func SignalStop(c chan<- os.Signal) {
	N.mu.Lock()
	defer N.mu.Unlock()
	for i := range N.SigChans {
		if N.SigChans[i] == c {
			N.sigs[i] = []os.Signal{nil}
		}
	}
}

// Raise delivers a signal as os/signal does: to every channel subscribed to it,
// without waiting for a receiver.  It reports whether anybody subscribed.
func (n *NetState) Raise(s os.Signal) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	found := false
	for i, c := range n.SigChans {
		want := len(n.sigs[i]) == 0
		for _, x := range n.sigs[i] {
			if x == s {
				want = true
			}
		}
		if want {
			found = true
			select {
			case c <- s:
			default:
			}
		}
	}
	return found
}

// OSExit records the exit status and ends the calling goroutine's progress.
func OSExit(code int) {
	N.mu.Lock()
	N.Exits = append(N.Exits, code)
	N.mu.Unlock()
	<-make(chan int)
}
