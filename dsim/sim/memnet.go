package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// Sockets in memory: what the extension API server listens on, and what its
// clients dial. Bytes are delivered after a latency, connections can be reset
// and black-holed.

type memNet struct {
	mu        sync.Mutex
	listeners map[string]*memListener // by port
	port      int
	lat       func() time.Duration
	conns     map[*memConn]bool // the servers' ends
	down      bool              // nothing gets through
}

func newMemNet() *memNet {
	m := &memNet{listeners: map[string]*memListener{}, port: 20000, conns: map[*memConn]bool{}}
	net.DsimListen = m.listen
	return m
}

type memListener struct {
	m     *memNet
	addr  *net.TCPAddr
	queue chan *memConn
	done  chan struct{}
	once  sync.Once
}

func (m *memNet) listen(network, address string) (net.Listener, error) {
	_, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if port == "0" {
		m.port++
		port = strconv.Itoa(m.port)
	}
	if m.listeners[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	n, _ := strconv.Atoi(port)
	l := &memListener{m: m, addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: n}, queue: make(chan *memConn, 64), done: make(chan struct{})}
	m.listeners[port] = l
	return l, nil
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	default:
	}
	select {
	case c := <-l.queue:
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *memListener) Close() error {
	l.once.Do(func() {
		close(l.done)
		l.m.mu.Lock()
		defer l.m.mu.Unlock()
		for p, o := range l.m.listeners {
			if o == l {
				delete(l.m.listeners, p)
			}
		}
	})
	l.drop()
	return nil
}

func (l *memListener) Addr() net.Addr { return l.addr }

// dial connects to a port.
func (m *memNet) dial(ctx context.Context, network, address string) (net.Conn, error) {
	_, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	l := m.listeners[port]
	m.port++
	me := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: m.port}
	m.mu.Unlock()
	refused := &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	if l == nil {
		return nil, refused
	}
	a, b := newMemHalf(m), newMemHalf(m)
	cl := &memConn{r: a, w: b, local: me, remote: l.addr}
	sv := &memConn{r: b, w: a, local: l.addr, remote: me}
	sv.m, cl.m = m, m
	m.mu.Lock()
	m.conns[sv] = true
	m.mu.Unlock()
	select {
	case l.queue <- sv:
		select {
		case <-l.done:
			l.drop()
		default:
		}
		return cl, nil
	case <-l.done:
		err = refused
	case <-ctx.Done():
		err = ctx.Err()
	}
	m.mu.Lock()
	delete(m.conns, sv)
	m.mu.Unlock()
	return nil, err
}

// drop resets the connections nobody has accepted.
func (l *memListener) drop() {
	for {
		select {
		case c := <-l.queue:
			c.reset()
			_ = c.Close()
		default:
			return
		}
	}
}

// resetAll breaks all connections and returns how many there were.
func (m *memNet) resetAll() int {
	m.mu.Lock()
	var cs []*memConn
	for c := range m.conns {
		cs = append(cs, c)
	}
	m.conns = map[*memConn]bool{}
	m.mu.Unlock()
	for _, c := range cs {
		c.reset()
	}
	return len(cs)
}

func (m *memNet) open() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.conns)
}

type memChunk struct {
	at time.Duration
	b  []byte
}

// memHalf is one direction of a connection.
type memHalf struct {
	m      *memNet
	mu     sync.Mutex
	q      []memChunk
	size   int
	last   time.Duration
	wclose bool  // no more data
	rclose bool  // nobody reads
	err    error // broken
	wake   chan struct{}
}

const memBuf = 64 << 10

func newMemHalf(m *memNet) *memHalf { return &memHalf{m: m, wake: make(chan struct{})} }

// changed must be called with the lock held.
func (h *memHalf) changed() {
	close(h.wake)
	h.wake = make(chan struct{})
}

// memDeadline is a deadline that can be moved.
type memDeadline struct {
	mu sync.Mutex
	t  time.Time
	ch chan struct{} // closed when the deadline is moved
}

func (d *memDeadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.t = t
	if d.ch != nil {
		close(d.ch)
	}
	d.ch = make(chan struct{})
}

func (d *memDeadline) get() (time.Time, chan struct{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.ch == nil {
		d.ch = make(chan struct{})
	}
	return d.t, d.ch
}

type memConn struct {
	m             *memNet
	r, w          *memHalf
	local, remote net.Addr
	rd, wd        memDeadline
	mu            sync.Mutex
	closed        bool
}

// wait waits for a change, the deadline, or for d if that is positive.
func memWait(dl *memDeadline, wake chan struct{}, d time.Duration) error {
	t, moved := dl.get()
	var tc, dc <-chan time.Time
	if !t.IsZero() {
		left := time.Until(t)
		if left <= 0 {
			return os.ErrDeadlineExceeded
		}
		tm := time.NewTimer(left)
		defer tm.Stop()
		tc = tm.C
	}
	if d > 0 {
		tm := time.NewTimer(d)
		defer tm.Stop()
		dc = tm.C
	}
	select {
	case <-wake:
	case <-moved:
	case <-dc:
	case <-tc:
		return os.ErrDeadlineExceeded
	}
	return nil
}

func (c *memConn) Read(p []byte) (int, error) {
	for {
		h := c.r
		h.mu.Lock()
		if h.err != nil || h.rclose {
			err := h.err
			h.mu.Unlock()
			if err == nil {
				err = net.ErrClosed
			}
			return 0, c.opErr("read", err)
		}
		var d time.Duration
		if len(h.q) > 0 {
			if d = h.q[0].at - now(); d <= 0 {
				n := copy(p, h.q[0].b)
				h.size -= n
				if h.q[0].b = h.q[0].b[n:]; len(h.q[0].b) == 0 {
					h.q = h.q[1:]
				}
				h.changed()
				h.mu.Unlock()
				return n, nil
			}
		} else if h.wclose {
			h.mu.Unlock()
			return 0, io.EOF
		}
		wake := h.wake
		h.mu.Unlock()
		if err := memWait(&c.rd, wake, d); err != nil {
			return 0, c.opErr("read", err)
		}
	}
}

func (c *memConn) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		h := c.w
		h.mu.Lock()
		switch {
		case h.err != nil:
			err := h.err
			h.mu.Unlock()
			return n, c.opErr("write", err)
		case h.wclose:
			h.mu.Unlock()
			return n, c.opErr("write", net.ErrClosed)
		case h.rclose:
			h.mu.Unlock()
			return n, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if room := memBuf - h.size; room > 0 {
			k := min(room, len(p)-n)
			at := now()
			if h.m.lat != nil {
				at += h.m.lat()
			}
			if at < h.last {
				at = h.last
			}
			h.last = at
			h.q = append(h.q, memChunk{at, append([]byte{}, p[n:n+k]...)})
			h.size += k
			n += k
			h.changed()
			h.mu.Unlock()
			continue
		}
		wake := h.wake
		h.mu.Unlock()
		if err := memWait(&c.wd, wake, 0); err != nil {
			return n, c.opErr("write", err)
		}
	}
	return n, nil
}

func (c *memConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *memConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.mu.Unlock()
	for _, h := range []*memHalf{c.r, c.w} {
		h.mu.Lock()
		if h == c.r {
			h.rclose = true
		} else {
			h.wclose = true
		}
		h.changed()
		h.mu.Unlock()
	}
	c.m.mu.Lock()
	delete(c.m.conns, c)
	c.m.mu.Unlock()
	return nil
}

var errMemReset = os.NewSyscallError("read", syscall.ECONNRESET)

func (c *memConn) reset() {
	for _, h := range []*memHalf{c.r, c.w} {
		h.mu.Lock()
		h.err = errMemReset
		h.q, h.size = nil, 0
		h.changed()
		h.mu.Unlock()
	}
}

func (c *memConn) LocalAddr() net.Addr                { return c.local }
func (c *memConn) RemoteAddr() net.Addr               { return c.remote }
func (c *memConn) SetReadDeadline(t time.Time) error  { c.rd.set(t); return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { c.wd.set(t); return nil }
func (c *memConn) SetDeadline(t time.Time) error {
	c.rd.set(t)
	c.wd.set(t)
	return nil
}

var errNoAnswer = errors.New("no answer")
