// Package simnet is an in-memory stream network under the simulator's control:
// every delay, refusal, stall, reset and truncation is a seeded decision.
package simnet

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"os"
	"slices"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// State is how a host answers connections.
type State int

const (
	Up   State = iota
	Down       // refuses, existing connections reset
	Hung       // accepts nothing, delivers nothing, no error
)

// Net is one network.
type Net struct {
	env   *simkit.Env
	mu    sync.Mutex
	ls    map[string]*Listener
	hosts map[string]State
	conns map[*Conn]struct{}
	ids   int
	dials []Dial
	ports int
	// Base is the one-way latency of every segment.
	Base time.Duration
	// Slow bounds what net-delay adds to a segment (0: two seconds).
	Slow time.Duration
	// Reuse lets a listener take over the address of an open one.
	Reuse bool
	// ByID makes listeners hand out connections as ServerConn values.
	ByID bool
	// TLS, if set, decides at dial time what connection state the server sees.
	TLS func(ctx context.Context) *tls.ConnectionState
	// OnDial, if set, is called before a dial.
	OnDial func(ctx context.Context, addr string)
}

// Dial is one connection attempt.
type Dial struct {
	Addr string
	At   time.Duration
	Err  string
}

// New installs a network as the process's network.
func New(env *simkit.Env) *Net {
	n := &Net{env: env, ls: map[string]*Listener{}, hosts: map[string]State{}, conns: map[*Conn]struct{}{}, Base: 200 * time.Microsecond}
	net.SimDial = n.dial
	net.SimListen = func(_ context.Context, _, addr string) (net.Listener, error) { return n.Listen(addr) }

	return n
}

// Uninstall gives the network back.
func (n *Net) Uninstall() {
	net.SimDial, net.SimListen = nil, nil
	byID.Clear()
}

// SetState changes a host ("host:port").
func (n *Net) SetState(addr string, s State) {
	n.mu.Lock()
	n.hosts[addr] = s
	var cut []*Conn
	for _, c := range n.sorted() {
		if c.server == addr {
			cut = append(cut, c)
		}
	}
	n.mu.Unlock()
	for _, c := range cut {
		if s == Down {
			c.Reset()
		} else {
			c.kick()
		}
	}
}

// sorted lists the open connections in order of creation.
func (n *Net) sorted() []*Conn {
	cs := make([]*Conn, 0, len(n.conns))
	for c := range n.conns {
		cs = append(cs, c)
	}
	slices.SortFunc(cs, func(a, b *Conn) int { return a.id - b.id })

	return cs
}

// StateOf returns the host's state.
func (n *Net) StateOf(addr string) State {
	n.mu.Lock()
	defer n.mu.Unlock()

	return n.hosts[addr]
}

// Dials returns the connection attempts so far.
func (n *Net) Dials() []Dial {
	n.mu.Lock()
	defer n.mu.Unlock()

	return append([]Dial(nil), n.dials...)
}

// Listen opens a listener.
func (n *Net) Listen(addr string) (*Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if h, p, err := net.SplitHostPort(addr); err == nil && (p == "0" || h == "") {
		if p == "0" {
			n.ports++
			p = itoa(20000 + n.ports)
		}
		if h == "" {
			h = "127.0.0.1"
		}
		addr = net.JoinHostPort(h, p)
	}
	if _, ok := n.ls[addr]; ok && !n.Reuse {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: Addr(addr), Err: errors.New("address already in use")}
	}
	l := &Listener{n: n, addr: addr, ch: make(chan *Conn, 128), done: make(chan struct{})}
	n.ls[addr] = l

	return l, nil
}

func itoa(i int) string {
	b := [8]byte{}
	p := len(b)
	for ; i > 0; i /= 10 {
		p--
		b[p] = byte('0' + i%10)
	}

	return string(b[p:])
}

var errRefused = errors.New("connect: connection refused")

func (n *Net) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	if n.OnDial != nil {
		n.OnDial(ctx, addr)
	}
	fail := func(err error) (net.Conn, error) {
		n.mu.Lock()
		n.dials = append(n.dials, Dial{addr, n.env.Now(), err.Error()})
		n.mu.Unlock()

		return nil, &net.OpError{Op: "dial", Net: network, Addr: Addr(addr), Err: err}
	}
	wait := n.Base
	if ok, v := n.env.Fault("net-slow-dial", addr); ok {
		wait += time.Duration(v%3000) * time.Millisecond
	}
	t := time.NewTimer(wait)
	select {
	case <-t.C:
	case <-ctx.Done():
		t.Stop()

		return fail(ctx.Err())
	}
	if ok, _ := n.env.Fault("net-refuse", addr); ok {
		return fail(errRefused)
	}
	for n.StateOf(addr) == Hung {
		// A SYN is retransmitted until the host answers or the caller gives up.
		t.Reset(time.Second)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()

			return fail(ctx.Err())
		}
	}
	n.mu.Lock()
	l := n.ls[addr]
	st := n.hosts[addr]
	n.mu.Unlock()
	if l == nil || st == Down {
		return fail(errRefused)
	}
	n.mu.Lock()
	n.ports++
	from := "10.9.9.9:" + itoa(30000+n.ports)
	n.mu.Unlock()
	c, s := n.pair(from, addr)
	if n.TLS != nil {
		s.tls = n.TLS(ctx)
	}
	select {
	case l.ch <- s:
	case <-l.done:
		return fail(errRefused)
	case <-ctx.Done():
		return fail(ctx.Err())
	}
	n.mu.Lock()
	n.dials = append(n.dials, Dial{addr, n.env.Now(), ""})
	n.mu.Unlock()

	return c, nil
}

func (n *Net) pair(client, server string) (c, s *Conn) {
	up, down := newPipe(n, server), newPipe(n, server)
	c = &Conn{n: n, in: down, out: up, local: client, remote: server, server: server}
	s = &Conn{n: n, in: up, out: down, local: server, remote: client, server: server}
	c.peer, s.peer = s, c
	n.mu.Lock()
	n.ids += 2
	c.id, s.id = n.ids, n.ids+1
	n.conns[c], n.conns[s] = struct{}{}, struct{}{}
	n.mu.Unlock()

	return c, s
}

// Listener accepts simulated connections.
type Listener struct {
	n    *Net
	addr string
	ch   chan *Conn
	done chan struct{}
	once sync.Once
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, net.ErrClosed
	default:
	}
	select {
	case c := <-l.ch:
		if l.n.ByID {
			byID.Store(c.id, c)
			if c.tls != nil {
				return ServerTLSConn{ServerConn{c.id}}, nil
			}

			return ServerConn{c.id}, nil
		}
		if c.tls != nil {
			return &TLSConn{c, *c.tls}, nil
		}

		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// ServerConn is a connection that hashes by its number, not by its address: a
// server that ranges over a map of them does so in an order the seed decides.
type ServerConn struct{ id int }

var byID sync.Map // id -> *Conn

func (c ServerConn) conn() *Conn {
	v, _ := byID.Load(c.id)
	x, _ := v.(*Conn)

	return x
}

func (c ServerConn) Read(b []byte) (int, error)         { return c.conn().Read(b) }
func (c ServerConn) Write(b []byte) (int, error)        { return c.conn().Write(b) }
func (c ServerConn) Close() error                       { return c.conn().Close() }
func (c ServerConn) LocalAddr() net.Addr                { return c.conn().LocalAddr() }
func (c ServerConn) RemoteAddr() net.Addr               { return c.conn().RemoteAddr() }
func (c ServerConn) SetDeadline(t time.Time) error      { return c.conn().SetDeadline(t) }
func (c ServerConn) SetReadDeadline(t time.Time) error  { return c.conn().SetReadDeadline(t) }
func (c ServerConn) SetWriteDeadline(t time.Time) error { return c.conn().SetWriteDeadline(t) }

// ServerTLSConn is a ServerConn whose TLS handshake completed.
type ServerTLSConn struct{ ServerConn }

// Handshake implements fasthttp's connTLSer.
func (c ServerTLSConn) Handshake() error { return nil }

// ConnectionState implements fasthttp's connTLSer.
func (c ServerTLSConn) ConnectionState() tls.ConnectionState { return *c.conn().tls }

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.once.Do(func() {
		close(l.done)
		l.n.mu.Lock()
		if l.n.ls[l.addr] == l {
			delete(l.n.ls, l.addr)
		}
		l.n.mu.Unlock()
		for {
			select {
			case c := <-l.ch:
				c.Reset()

				continue
			default:
			}

			break
		}
	})

	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return Addr(l.addr) }

// Addr is a simulated address. It formats like a TCP address.
func Addr(a string) net.Addr {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return &net.TCPAddr{}
	}
	port := 0
	for _, d := range p {
		port = port*10 + int(d-'0')
	}
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(10, 8, 8, 8)
	}

	return &net.TCPAddr{IP: ip, Port: port}
}

// TLSConn stands for a connection whose TLS handshake completed with the state.
type TLSConn struct {
	*Conn
	State tls.ConnectionState
}

// Handshake implements fasthttp's connTLSer.
func (c *TLSConn) Handshake() error { return nil }

// ConnectionState implements fasthttp's connTLSer.
func (c *TLSConn) ConnectionState() tls.ConnectionState { return c.State }

type seg struct {
	b  []byte
	at time.Time
}

// pipe is one direction of a connection.
type pipe struct {
	n      *Net
	server string
	mu     sync.Mutex
	segs   []seg
	last   time.Time
	eof    bool
	eofAt  time.Time
	err    error
	wake   chan struct{}
}

func newPipe(n *Net, server string) *pipe {
	return &pipe{n: n, server: server, wake: make(chan struct{})}
}

func (p *pipe) signal() {
	close(p.wake)
	p.wake = make(chan struct{})
}

// Conn is one end of a simulated connection.
type Conn struct {
	id            int
	n             *Net
	in, out       *pipe
	peer          *Conn
	local, remote string
	server        string
	mu            sync.Mutex
	rdl, wdl      time.Time
	dlWake        chan struct{}
	closed        bool
	written       int
	cutAfter      int // close the outgoing stream after so many bytes (0: never)
	cutReset      bool
	tls           *tls.ConnectionState
}

var errReset = errors.New("connection reset by peer")

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: Addr(c.remote), Err: err}
}

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	for {
		now := time.Now()
		c.mu.Lock()
		closed, dl := c.closed, c.rdl
		if c.dlWake == nil {
			c.dlWake = make(chan struct{})
		}
		dlw := c.dlWake
		c.mu.Unlock()
		if closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if !dl.IsZero() && !now.Before(dl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		p := c.in
		hung := c.n.StateOf(c.server) == Hung
		p.mu.Lock()
		if p.err != nil {
			err := p.err
			p.mu.Unlock()

			return 0, c.opErr("read", err)
		}
		var next time.Time
		if !hung {
			if len(p.segs) > 0 {
				if s := &p.segs[0]; !s.at.After(now) {
					n := copy(b, s.b)
					s.b = s.b[n:]
					if len(s.b) == 0 {
						p.segs = p.segs[1:]
					}
					p.mu.Unlock()

					return n, nil
				}
				next = p.segs[0].at
			} else if p.eof {
				if !p.eofAt.After(now) {
					p.mu.Unlock()

					return 0, io.EOF
				}
				next = p.eofAt
			}
		}
		wake := p.wake
		p.mu.Unlock()
		if !dl.IsZero() && (next.IsZero() || dl.Before(next)) {
			next = dl
		}
		if next.IsZero() {
			select {
			case <-wake:
			case <-dlw:
			}

			continue
		}
		t := time.NewTimer(next.Sub(now))
		select {
		case <-wake:
		case <-dlw:
		case <-t.C:
		}
		t.Stop()
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()

		return 0, c.opErr("write", net.ErrClosed)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		c.mu.Unlock()

		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	cut := -1
	if c.cutAfter > 0 && !c.n.env.Quiet() {
		left := c.cutAfter - c.written
		if left < len(b) {
			cut = max(left, 0)
		}
	}
	c.written += len(b)
	reset := c.cutReset
	c.mu.Unlock()
	dir := "up"
	if c.local == c.server {
		dir = "down"
	}
	point := c.server + "/" + dir
	if ok, _ := c.n.env.Fault("net-reset", point); ok {
		c.Reset()

		return 0, c.opErr("write", errReset)
	}
	if dir == "down" && cut < 0 && len(b) > 1 {
		// the answer breaks off
		if ok, v := c.n.env.Fault("net-cut", point); ok {
			cut = int(v % uint64(len(b)))
		}
	}
	delay := c.n.Base
	if ok, v := c.n.env.Fault("net-delay", point); ok {
		if c.n.Slow > 0 {
			delay += time.Duration(v % uint64(c.n.Slow))
		} else {
			delay += time.Duration(v%2000) * time.Millisecond
		}
	}
	if ok, v := c.n.env.Fault("net-stall", point); ok {
		delay += time.Duration(5+v%60) * time.Second
	}
	data := b
	if cut >= 0 {
		data = b[:cut]
	}
	p := c.out
	p.mu.Lock()
	if p.err != nil {
		err := p.err
		p.mu.Unlock()

		return 0, c.opErr("write", err)
	}
	if p.eof {
		p.mu.Unlock()

		return len(b), nil // the other side no longer reads
	}
	at := time.Now().Add(delay)
	if at.Before(p.last) {
		at = p.last
	}
	p.last = at
	if len(data) > 0 {
		pieces := [][]byte{data}
		if len(data) > 1 {
			if ok, v := c.n.env.Fault("net-split", point); ok {
				k := 1 + int(v%uint64(len(data)-1))
				pieces = [][]byte{data[:k], data[k:]}
			}
		}
		for i, d := range pieces {
			t := at
			if i > 0 {
				t = at.Add(time.Millisecond)
				p.last = t
			}
			p.segs = append(p.segs, seg{append([]byte(nil), d...), t})
		}
	}
	if cut >= 0 && !reset {
		p.eof = true
		p.eofAt = p.last
	}
	p.signal()
	p.mu.Unlock()
	if cut >= 0 && reset {
		c.Reset()
	}

	return len(b), nil
}

// CutAfter ends the outgoing stream after n more bytes.
func (c *Conn) CutAfter(n int, reset bool) {
	c.mu.Lock()
	c.cutAfter = c.written + max(n, 1)
	c.cutReset = reset
	c.mu.Unlock()
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()

		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	if c.dlWake != nil {
		close(c.dlWake)
		c.dlWake = nil
	}
	c.mu.Unlock()
	p := c.out
	p.mu.Lock()
	if !p.eof {
		p.eof = true
		p.eofAt = time.Now().Add(c.n.Base)
		if p.eofAt.Before(p.last) {
			p.eofAt = p.last
		}
	}
	p.signal()
	p.mu.Unlock()
	p = c.in
	p.mu.Lock()
	p.signal()
	p.mu.Unlock()
	c.n.mu.Lock()
	delete(c.n.conns, c)
	c.n.mu.Unlock()

	return nil
}

// Reset breaks the connection at both ends.
func (c *Conn) Reset() {
	for _, p := range []*pipe{c.in, c.out} {
		p.mu.Lock()
		if p.err == nil {
			p.err = errReset
		}
		p.segs = nil
		p.signal()
		p.mu.Unlock()
	}
}

func (c *Conn) kick() {
	for _, p := range []*pipe{c.in, c.out} {
		p.mu.Lock()
		p.signal()
		p.mu.Unlock()
	}
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return Addr(c.local) }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return Addr(c.remote) }

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl, c.wdl = t, t
	if c.dlWake != nil {
		close(c.dlWake)
		c.dlWake = nil
	}
	c.mu.Unlock()

	return nil
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	if c.dlWake != nil {
		close(c.dlWake)
		c.dlWake = nil
	}
	c.mu.Unlock()

	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()

	return nil
}

// CloseAll resets every connection and closes every listener.
func (n *Net) CloseAll() {
	n.mu.Lock()
	var ls []*Listener
	for _, k := range simkit.SortedKeys(n.ls) {
		ls = append(ls, n.ls[k])
	}
	cs := n.sorted()
	n.mu.Unlock()
	for _, l := range ls {
		l.Close()
	}
	for _, c := range cs {
		c.Reset()
	}
}
