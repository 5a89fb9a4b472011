// Package snet is the simulated TCP network: ordered byte streams with
// latency, bounded windows, arbitrary segmentation, FIN and RST semantics and
// injected faults. It also stands in for package net in instrumented code.
package snet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"simrt/sim"
)

type (
	Conn       = net.Conn
	Addr       = net.Addr
	Listener   = net.Listener
	Error      = net.Error
	OpError    = net.OpError
	IP         = net.IP
	IPNet      = net.IPNet
	TCPAddr    = net.TCPAddr
	UDPAddr    = net.UDPAddr
	UnixAddr   = net.UnixAddr
	AddrError  = net.AddrError
	Buffers    = net.Buffers
	PacketConn = net.PacketConn
	ParseError = net.ParseError
)

var (
	ErrClosed = net.ErrClosed
)

func JoinHostPort(h, p string) string                  { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error)   { return net.SplitHostPort(s) }
func ParseIP(s string) IP                              { return net.ParseIP(s) }
func ResolveTCPAddr(n, a string) (*TCPAddr, error)     { return net.ResolveTCPAddr(n, a) }
func Listen(network, address string) (Listener, error) { return W.Listen(address) }
func Dial(network, address string) (Conn, error)       { return W.Dial(address, 0) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return W.Dial(address, int64(d))
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(n, a string) (Conn, error) { return W.Dial(a, int64(d.Timeout)) }
func (d *Dialer) DialContext(_ context.Context, n, a string) (Conn, error) {
	return W.Dial(a, int64(d.Timeout))
}

// Pipe mirrors net.Pipe closely enough for instrumented code.
func Pipe() (Conn, Conn) {
	a, b := W.Pair(sim.CurNode(), sim.CurNode(), "pipe")
	return a, b
}

// Params describes the behaviour of the network in one run.
type Params struct {
	Latency  int64   `json:"lat"`    // base one-way latency, ns
	Jitter   int64   `json:"jit"`    // extra latency, ns
	TailP    float64 `json:"tail"`   // probability of a retransmission-like delay
	TailNs   int64   `json:"tailns"` // its size
	Window   int     `json:"win"`    // bytes in flight or unread before writers block
	SegP     float64 `json:"seg"`    // probability that a read returns less than available
	MSS      int     `json:"mss"`    // bytes per segment on the wire
	RstClose bool    `json:"rst"`    // close with unread data resets the peer
	RstDrops bool    `json:"rstd"`   // a reset discards data the peer has not read
	KeepNs   int64   `json:"keep"`   // a silent peer is declared dead after this (0: never)
}

// World is the network of the current run.
type World struct {
	P         Params
	listeners map[string]*listener
	Conns     []*SimConn
	nextPort  int
	DialHook  func(addr string) error
}

// W is the current network.
var W *World

func init() {
	sim.OnReset(func() { W = &World{listeners: map[string]*listener{}, nextPort: 40000} })
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type seg struct {
	data []byte
	fin  bool
	rst  bool
}

type pipe struct {
	src, dst *SimConn
	q        []seg // in flight, in order
	sched    int   // of q, how many have a delivery scheduled
	buf      []byte
	used     int
	lastAt   int64
	eof      bool
	rst      bool
	cut      bool // partitioned: nothing is delivered
	finSent  bool
	rwait    []*sim.Task
	wwait    []*sim.Task
	Total    int64 // bytes written
	Seen     int64 // bytes delivered to the receiving kernel
	corrupt  map[int64]byte
}

// SimConn is one end of a simulated TCP connection.
type SimConn struct {
	ID       int
	Node     int
	Name     string
	la, ra   net.Addr
	peer     *SimConn
	in, out  *pipe
	closed   bool
	CloseAt  int64
	werr     error // injected: every write fails
	rerr     error // injected: every read fails
	rdl, wdl int64
	rdt, wdt *sim.Timer
	Writes   int
	Reads    int
	failW    int // fail after this many more writes (0 = off)
	Closes   int
}

// Pair creates a connected pair (a on node na, b on node nb).
func (w *World) Pair(na, nb int, name string) (*SimConn, *SimConn) {
	w.nextPort++
	ca := addr(fmt.Sprintf("10.0.0.%d:%d", na+1, w.nextPort))
	cb := addr(fmt.Sprintf("10.0.0.%d:%d", nb+1, 1))
	a := &SimConn{ID: len(w.Conns), Node: na, Name: name + "/a", la: ca, ra: cb, rdl: -1, wdl: -1}
	b := &SimConn{ID: len(w.Conns) + 1, Node: nb, Name: name + "/b", la: cb, ra: ca, rdl: -1, wdl: -1}
	a.peer, b.peer = b, a
	p1 := &pipe{src: a, dst: b}
	p2 := &pipe{src: b, dst: a}
	a.out, b.in = p1, p1
	b.out, a.in = p2, p2
	w.Conns = append(w.Conns, a, b)
	return a, b
}

func (c *SimConn) Peer() *SimConn       { return c.peer }
func (c *SimConn) LocalAddr() net.Addr  { return c.la }
func (c *SimConn) RemoteAddr() net.Addr { return c.ra }
func (c *SimConn) Closed() bool         { return c.closed }
func (c *SimConn) Unread() int          { return len(c.in.buf) }
func (c *SimConn) InFlight() int        { return c.out.used }
func (c *SimConn) Written() int64       { return c.out.Total }
func (c *SimConn) Broken() bool         { return c.in.rst || c.out.rst }

func (c *SimConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: c.ra, Err: err}
}

func wakeAll(q *[]*sim.Task) {
	l := *q
	*q = nil
	for _, t := range l {
		sim.Wake(t)
	}
}

func (c *SimConn) Write(b []byte) (int, error) {
	sim.Yield("netwrite")
	if sim.Dead() {
		return 0, net.ErrClosed
	}
	c.Writes++
	if c.failW > 0 {
		c.failW--
		if c.failW == 0 {
			sim.Count("write-error")
			c.werr = syscall.EPIPE
			// a short write before the error
			n := 0
			if len(b) > 1 {
				n = sim.Choose(len(b))
				c.push(append([]byte(nil), b[:n]...))
			}
			return n, c.op("write", c.werr)
		}
	}
	n := 0
	for {
		if c.closed {
			return n, c.op("write", net.ErrClosed)
		}
		if c.werr != nil {
			return n, c.op("write", c.werr)
		}
		if c.in.rst || c.out.rst {
			return n, c.op("write", syscall.ECONNRESET)
		}
		if c.wdl >= 0 && sim.Now() >= c.wdl {
			return n, c.op("write", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return n, nil
		}
		space := W.P.Window - c.out.used
		if W.P.Window <= 0 {
			space = len(b)
		}
		if space > 0 {
			k := min(space, len(b))
			if W.P.MSS > 0 && k > W.P.MSS {
				k = W.P.MSS
			}
			c.push(append([]byte(nil), b[:k]...))
			b = b[k:]
			n += k
			continue
		}
		sim.Count("probe-window-full")
		c.out.wwait = append(c.out.wwait, sim.Cur())
		sim.Park("net write")
	}
}

func (c *SimConn) push(b []byte) {
	p := c.out
	if p.corrupt != nil {
		for i := range b {
			if x, ok := p.corrupt[p.Total+int64(i)]; ok {
				b[i] ^= x
				sim.Count("corrupt-byte")
			}
		}
	}
	p.Total += int64(len(b))
	p.used += len(b)
	p.enqueue(seg{data: b})
}

func (p *pipe) enqueue(s seg) {
	p.q = append(p.q, s)
	if !p.cut {
		p.schedule()
	}
}

func (p *pipe) schedule() {
	for p.sched < len(p.q) {
		p.sched++
		d := W.P.Latency
		if W.P.Jitter > 0 {
			d += W.P.Jitter * int64(sim.Choose(8)) / 8
		}
		if W.P.TailP > 0 && sim.Chance(W.P.TailP) {
			sim.Count("net-delay-spike")
			d += W.P.TailNs
		}
		at := sim.Now() + d
		if at < p.lastAt {
			at = p.lastAt
		}
		p.lastAt = at
		sim.After(at-sim.Now(), p.arrive)
	}
}

// arrive delivers the oldest segment in flight (scheduler context).
func (p *pipe) arrive() {
	if p.cut || p.sched == 0 || len(p.q) == 0 {
		return
	}
	s := p.q[0]
	p.q = p.q[1:]
	p.sched--
	d := p.dst
	if s.rst {
		if !p.rst {
			p.rst = true
			if W.P.RstDrops {
				p.used -= len(p.buf)
				p.buf = nil
			}
			d.wake()
		}
		return
	}
	if p.rst {
		return
	}
	if s.fin {
		p.eof = true
		wakeAll(&p.rwait)
		return
	}
	if d.closed || (sim.NodeDead(d.Node)) {
		// data for a closed socket: reset
		p.used -= len(s.data)
		if !d.out.rst {
			d.out.finSent = true
			d.out.enqueue(seg{rst: true})
		}
		return
	}
	p.buf = append(p.buf, s.data...)
	p.Seen += int64(len(s.data))
	wakeAll(&p.rwait)
}

func (c *SimConn) wake() {
	wakeAll(&c.in.rwait)
	wakeAll(&c.out.wwait)
}

func (c *SimConn) Read(b []byte) (int, error) {
	sim.Yield("netread")
	if sim.Dead() {
		return 0, io.EOF
	}
	c.Reads++
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		if c.rerr != nil {
			return 0, c.op("read", c.rerr)
		}
		if c.rdl >= 0 && sim.Now() >= c.rdl {
			return 0, c.op("read", os.ErrDeadlineExceeded)
		}
		p := c.in
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := min(len(p.buf), len(b))
			if n > 1 && W.P.SegP > 0 && sim.Chance(W.P.SegP) {
				n -= sim.Choose(n)
				sim.Count("short-read")
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.buf = nil
			}
			p.used -= n
			wakeAll(&p.wwait)
			return n, nil
		}
		if p.rst || c.out.rst {
			return 0, c.op("read", syscall.ECONNRESET)
		}
		if p.eof {
			return 0, io.EOF
		}
		p.rwait = append(p.rwait, sim.Cur())
		sim.Park("net read")
	}
}

func (c *SimConn) Close() error {
	sim.Yield("netclose")
	c.Closes++
	if sim.Dead() {
		return nil
	}
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.shut()
	return nil
}

func (c *SimConn) shut() {
	if c.closed {
		return
	}
	c.closed = true
	c.CloseAt = sim.Now()
	c.wake()
	if c.out.finSent || c.out.rst || c.in.rst {
		return
	}
	c.out.finSent = true
	if W.P.RstClose && len(c.in.buf) > 0 {
		sim.Count("rst-on-close")
		c.out.enqueue(seg{rst: true})
		return
	}
	c.out.enqueue(seg{fin: true})
	// nobody reads the rest; a writer held up by the full window must find
	// out that whatever it sends now is answered by a reset
	c.in.used -= len(c.in.buf)
	c.in.buf = nil
	wakeAll(&c.in.wwait)
}

// ------------------------------------------------------------- deadlines

func (c *SimConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func dl(t time.Time, old *sim.Timer, f func()) (int64, *sim.Timer) {
	old.Stop()
	if t.IsZero() {
		return -1, nil
	}
	d := int64(t.Sub(sim.Wall()))
	if d <= 0 {
		f()
		return sim.Now(), nil
	}
	return sim.Now() + d, sim.After(d, f)
}

func (c *SimConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.rdl, c.rdt = dl(t, c.rdt, func() { wakeAll(&c.in.rwait) })
	return nil
}

func (c *SimConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.wdl, c.wdt = dl(t, c.wdt, func() { wakeAll(&c.out.wwait) })
	return nil
}

// ---------------------------------------------------------------- faults

// Reset breaks the connection at once in both directions; everything in
// flight is lost.
func (c *SimConn) Reset() {
	for _, p := range []*pipe{c.in, c.out} {
		p.q, p.sched = nil, 0
		p.rst = true
		if W.P.RstDrops {
			p.used -= len(p.buf)
			p.buf = nil
		}
	}
	c.wake()
	c.peer.wake()
}

// HalfReset resets only what the local side sees (the peer is told later).
func (c *SimConn) HalfReset() {
	c.in.rst = true
	c.out.q, c.out.sched = nil, 0
	c.wake()
	c.out.cut = false
	c.out.enqueue(seg{rst: true})
}

// Cut stops delivery from this side to the other.
func (c *SimConn) Cut() {
	c.out.cut = true
	c.out.sched = 0
}

// Heal resumes delivery; held segments arrive in order.
func (c *SimConn) Heal() {
	if !c.out.cut {
		return
	}
	c.out.cut = false
	c.out.schedule()
}

// IsCut reports whether this side's output is partitioned.
func (c *SimConn) IsCut() bool { return c.out.cut }

// Timeout is the kernel giving up on a silent peer.
func (c *SimConn) Timeout() {
	if c.closed {
		return
	}
	c.rerr, c.werr = syscall.ETIMEDOUT, syscall.ETIMEDOUT
	c.wake()
}

// FailWrites makes every write fail while reads stay silent.
func (c *SimConn) FailWrites(err error) {
	c.werr = err
	wakeAll(&c.out.wwait)
}

// FailReads makes every read fail while writes go on working.
func (c *SimConn) FailReads(err error) {
	c.rerr = err
	wakeAll(&c.in.rwait)
}

// FailWriteAfter injects a short write and EPIPE at the n-th next write.
func (c *SimConn) FailWriteAfter(n int) { c.failW = n }

// CorruptAt xors the byte at a given offset of what this side sends.
func (c *SimConn) CorruptAt(off int64, x byte) {
	if c.out.corrupt == nil {
		c.out.corrupt = map[int64]byte{}
	}
	c.out.corrupt[off] = x
}

// Inject appends raw bytes to the outgoing stream (a misbehaving peer).
func (c *SimConn) Inject(b []byte) { c.push(append([]byte(nil), b...)) }

// ProcessDied is what the kernel does when the owning process dies.
func (c *SimConn) ProcessDied() { c.shut() }

// ----------------------------------------------------------- dial/listen

type listener struct {
	a      addr
	node   int
	q      []*SimConn
	wait   []*sim.Task
	closed bool
	w      *World
	failN  int // accepts still to fail
	failed int // accepts that failed
}

var errRefused = syscall.ECONNREFUSED

func (w *World) Listen(a string) (net.Listener, error) {
	sim.Yield("listen")
	if l := w.listeners[a]; l != nil && !l.closed && !sim.NodeDead(l.node) {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	l := &listener{a: addr(a), node: sim.CurNode(), w: w}
	w.listeners[a] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	sim.Yield("accept")
	for {
		if l.closed || sim.Dead() {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if l.failN > 0 {
			l.failN--
			l.failed++
			sim.Count("net-accept-fail")
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.wait = append(l.wait, sim.Cur())
		sim.Park("net accept")
	}
}

func (l *listener) Close() error {
	sim.Yield("lclose")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.q {
		c.shut()
	}
	wakeAll(&l.wait)
	return nil
}

func (l *listener) Addr() net.Addr { return l.a }

// FailAccepts makes the next n accepts of the listener at a fail, the ones
// already blocked included (the process is out of file descriptors).
func (w *World) FailAccepts(a string, n int) {
	if l := w.listeners[a]; l != nil && !l.closed {
		l.failN += n
		wakeAll(&l.wait)
	}
}

// FailedAccepts is how many accepts of the listener at a failed by injection.
func (w *World) FailedAccepts(a string) int {
	if l := w.listeners[a]; l != nil {
		return l.failed
	}
	return 0
}

// Dial connects to a listener.
func (w *World) Dial(a string, timeout int64) (net.Conn, error) {
	sim.Yield("dial")
	if w.DialHook != nil {
		if err := w.DialHook(a); err != nil {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
		}
	}
	sim.Sleep(2*w.P.Latency + 1)
	l := w.listeners[a]
	if l == nil || l.closed || sim.NodeDead(l.node) {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errRefused}
	}
	c, s := w.Pair(sim.CurNode(), l.node, fmt.Sprintf("%s#%d", a, len(w.Conns)/2))
	l.q = append(l.q, s)
	wakeAll(&l.wait)
	return c, nil
}

// Peeled is errors.Is re-exported for harness code.
func Peeled(err, target error) bool { return errors.Is(err, target) }
