package rt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Simulated TCP. A connection is two byte pipes. Bytes written enter the
// sender's buffer (bounded: a full buffer blocks the writer), travel in
// segments that arrive in order after a delay drawn from the "net" stream, and
// are cut up again when read. Loss, duplication and reordering below TCP show
// to a TCP user only as delay, so a partition is a delay too.

// NetCfg are the network properties of one connection, drawn per connection.
type NetCfg struct {
	LatMin, LatMax int64 // one-way delay per segment
	SegMax         int   // largest segment (0: as written)
	ReadMax        int   // largest single read (0: whatever is there)
	Window         int   // bytes in flight + unread before a writer blocks
	OneSeg         bool  // let data pile up before it is readable (coalescing)
}

// maxShort bounds the cost of long streams read byte by byte.
const maxShort = 20000

type pipe struct {
	s       *Sim
	cfg     NetCfg
	recv    []byte // arrived, unread
	short   int    // reads that returned less than there was
	flight  int    // sent, not arrived
	lastAt  int64
	eof     bool // FIN arrived
	finSent bool
	reset   bool // RST seen by reader or writer
	rq, wq  WaitQ
	hold    bool // black hole: nothing arrives any more
	held    []func()
	total   int64 // bytes accepted from the writer
	cutAt   int64 // after this many bytes the link resets (0: never)
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	s          *Sim
	ID         int
	host       *Host
	local      *net.TCPAddr
	remote     *net.TCPAddr
	in, out    *pipe
	peer       *Conn
	closed     bool
	wclosed    bool
	rdl, wdl   int64 // absolute ns; 0 none
	rdlEv      *event
	wdlEv      *event
	wmu, rmu   Mutex
	OpenedAt   int64
	linger0    bool // close with a reset
	ClosedAt   int64
	Reads      int64
	WroteBytes int64
	// AcceptErr, for harness ends: nothing.
	// ReadHook lets a harness alter what Read returns (n>0 with error etc).
	ReadHook func(b []byte, n int, e error) (int, error)
	// WriteHook may fail a write before anything is sent.
	WriteHook func(n int) (int, error)
	// OnWrite sees every byte accepted for sending, in order, at that moment.
	OnWrite func(b []byte)
	// AcceptedAt is when the accepting process took the connection (0: not yet).
	AcceptedAt int64
}

type SimListener struct {
	s       *Sim
	host    *Host
	addr    *net.TCPAddr
	backlog []*Conn
	q       WaitQ
	closed  bool
	Errs    int
}

func (s *Sim) newPair(a, b *Host, aaddr, baddr *net.TCPAddr, ca, cb NetCfg) (*Conn, *Conn) {
	ab := &pipe{s: s, cfg: ca}
	ba := &pipe{s: s, cfg: cb}
	s.conns++
	x := &Conn{s: s, ID: s.conns, host: a, local: aaddr, remote: baddr, in: ba, out: ab, OpenedAt: s.now}
	s.conns++
	y := &Conn{s: s, ID: s.conns, host: b, local: baddr, remote: aaddr, in: ab, out: ba, OpenedAt: s.now}
	x.peer, y.peer = y, x
	return x, y
}

// DefaultNet draws the properties of one direction of a connection.
func (s *Sim) DefaultNet() NetCfg {
	n := s.Net
	c := NetCfg{LatMin: 50_000, LatMax: 50_000, Window: 1 << 18}
	switch n.N(4) {
	case 1:
		c.LatMax = 5_000_000
	case 2:
		c.LatMax = 100_000_000
	case 3:
		c.LatMin, c.LatMax = 1_000, 1_000
	}
	switch n.N(5) {
	case 1:
		c.SegMax = 1 + n.N(16)
	case 2:
		c.SegMax = 64 + n.N(1400)
	case 3:
		c.ReadMax = 1 + n.N(40)
	case 4:
		c.OneSeg = true
	}
	if n.N(3) == 2 {
		c.Window = 512 << n.N(8)
	}
	return c
}

func (p *pipe) deliver(b []byte, last bool) {
	d := p.cfg.LatMin
	if p.cfg.LatMax > p.cfg.LatMin {
		d += int64(p.s.Net.N(int((p.cfg.LatMax-p.cfg.LatMin)/1000)+1)) * 1000
	}
	at := p.s.now + d
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	p.flight += len(b)
	f := func() {
		p.flight -= len(b)
		if p.reset {
			return
		}
		if !p.eof {
			p.recv = append(p.recv, b...)
		}
		p.rq.WakeAll(p.s)
	}
	p.s.At(at-p.s.now, func() {
		if p.hold {
			p.held = append(p.held, f)
			return
		}
		f()
	})
}

func (p *pipe) sendFIN() {
	if p.finSent {
		return
	}
	p.finSent = true
	d := p.cfg.LatMin
	at := p.s.now + d
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	f := func() {
		p.eof = true
		p.rq.WakeAll(p.s)
	}
	p.s.At(at-p.s.now, func() {
		if p.hold {
			p.held = append(p.held, f)
			return
		}
		f()
	})
}

func (p *pipe) doReset() {
	p.reset = true
	p.recv = nil
	p.rq.WakeAll(p.s)
	p.wq.WakeAll(p.s)
}

func (c *Conn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: e}
}

var errReset = &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}
var errPipe = &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}

func (c *Conn) Read(b []byte) (int, error) {
	n, e := c.read(b)
	if c.ReadHook != nil {
		n, e = c.ReadHook(b, n, e)
	}
	return n, e
}

func (c *Conn) read(b []byte) (int, error) {
	s := c.s
	s.progress()
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	c.Reads++
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl != 0 && c.rdl <= s.now {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		p := c.in
		if p.reset {
			return 0, c.opErr("read", errReset)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.recv) > 0 {
			n := len(p.recv)
			if n > len(b) {
				n = len(b)
			}
			if p.cfg.ReadMax > 0 && n > p.cfg.ReadMax && p.short < maxShort {
				p.short++
				n = 1 + s.Net.N(p.cfg.ReadMax)
				s.Stats["fault.short_read_net"]++
			}
			copy(b, p.recv[:n])
			p.recv = p.recv[n:]
			p.wq.WakeAll(s)
			if !c.host.env {
				s.Event("%s conn %d read %d", c.host.Name, c.ID, n)
			}
			return n, nil
		}
		if p.eof {
			return 0, io.EOF
		}
		p.rq.Wait(s, "conn read")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	s := c.s
	s.progress()
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.WriteHook != nil {
		if n, e := c.WriteHook(len(b)); e != nil {
			if n > 0 {
				c.out.total += int64(n)
				if c.OnWrite != nil {
					c.OnWrite(b[:n])
				}
				c.out.deliver(append([]byte(nil), b[:n]...), true)
			}
			return n, e
		}
	}
	done := 0
	if !c.host.env {
		s.Event("%s conn %d write %d", c.host.Name, c.ID, len(b))
	}
	for {
		if c.closed {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.wdl != 0 && c.wdl <= s.now {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		p := c.out
		if p.reset || c.wclosed {
			return done, c.opErr("write", errPipe)
		}
		if done == len(b) {
			return done, nil
		}
		room := p.cfg.Window - p.flight - len(p.recv)
		if room <= 0 {
			s.Stats["probe.write_blocked"]++
			p.wq.Wait(s, "conn write")
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		seg := n
		if p.cfg.SegMax > 0 && seg > p.cfg.SegMax {
			seg = 1 + s.Net.N(p.cfg.SegMax)
		}
		if p.cutAt > 0 && p.total+int64(seg) >= p.cutAt {
			seg = int(p.cutAt - p.total)
			if seg > 0 {
				p.total += int64(seg)
				if c.OnWrite != nil {
					c.OnWrite(b[done : done+seg])
				}
				p.deliver(append([]byte(nil), b[done:done+seg]...), true)
			}
			s.Stats["fault.reset_mid_stream"]++
			s.Event("conn %d cut after %d bytes", c.ID, p.cutAt)
			p.cutAt = 0
			at := p.lastAt - s.now
			s.At(at, func() { c.in.doReset(); c.out.doReset() })
			done += seg
			continue
		}
		p.total += int64(seg)
		c.WroteBytes += int64(seg)
		if c.OnWrite != nil {
			c.OnWrite(b[done : done+seg])
		}
		p.deliver(append([]byte(nil), b[done:done+seg]...), done+seg == len(b))
		done += seg
	}
}

func (c *Conn) Close() error {
	s := c.s
	if s.cur != nil {
		s.progress()
	}
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if !c.host.env {
		s.Event("%s conn %d close", c.host.Name, c.ID)
	}
	if c.linger0 {
		c.Abort()
		return nil
	}
	c.shut()
	return nil
}

func (c *Conn) shut() {
	if c.closed {
		return
	}
	s := c.s
	c.closed = true
	c.ClosedAt = s.now
	delete(c.host.conns, c.ID)
	s.cancel(c.rdlEv)
	s.cancel(c.wdlEv)
	c.out.sendFIN()
	// the other side learns on its next write
	lat := c.out.cfg.LatMin
	in := c.in
	s.At(lat, func() { in.wclose() })
	c.in.rq.WakeAll(s)
	c.out.wq.WakeAll(s)
}

// wclose: the reader of this pipe is gone; writes fail from now on.
func (p *pipe) wclose() {
	p.reset = true
	p.recv = nil
	p.wq.WakeAll(p.s)
	p.rq.WakeAll(p.s)
}

// Abort resets the connection: both ends see ECONNRESET, unread data is lost.
func (c *Conn) Abort() {
	c.s.Stats["fault.conn_reset"]++
	c.s.Event("conn %d reset by %s", c.ID, c.host.Name)
	c.closed = true
	c.ClosedAt = c.s.now
	delete(c.host.conns, c.ID)
	in, out := c.in, c.out
	c.s.At(c.out.cfg.LatMin, func() { in.doReset(); out.doReset() })
	c.in.rq.WakeAll(c.s)
	c.out.wq.WakeAll(c.s)
}

// CutAfter makes the link break after n more bytes in the direction out of c.
func (c *Conn) CutAfter(n int64) { c.out.cutAt = c.out.total + n }

// BlackHole stops all delivery in both directions, without any close (host vanished).
func (c *Conn) BlackHole(on bool) {
	if on {
		c.s.Stats["fault.partition"]++
	}
	for _, p := range []*pipe{c.in, c.out} {
		p.hold = on
		if !on {
			l := p.held
			p.held = nil
			for _, f := range l {
				f()
			}
		}
	}
}

func (c *Conn) CloseWrite() error {
	c.wclosed = true
	c.out.sendFIN()
	return nil
}
func (c *Conn) CloseRead() error                       { return nil }
func (c *Conn) SetLinger(n int) error                  { c.linger0 = n == 0; return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }
func (c *Conn) LocalAddr() net.Addr                    { return c.local }
func (c *Conn) RemoteAddr() net.Addr                   { return c.remote }
func (c *Conn) IsClosed() bool                         { return c.closed }
func (c *Conn) Host() *Host                            { return c.host }
func (c *Conn) Unread() int                            { return len(c.in.recv) }
func (c *Conn) PeerEnd() *Conn                         { return c.peer }
func (c *Conn) SetNet(out, in NetCfg)                  { c.out.cfg, c.in.cfg = out, in }
func (c *Conn) OutCfg() *NetCfg                        { return &c.out.cfg }
func (c *Conn) InCfg() *NetCfg                         { return &c.in.cfg }
func (c *Conn) InFlight() int                          { return c.out.flight + len(c.out.recv) }
func (c *Conn) InEOF() bool                            { return c.in.eof }
func (c *Conn) InReset() bool                          { return c.in.reset }

func (c *Conn) dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := untilNs(t)
	if d <= 0 {
		return max(c.s.now, 1)
	}
	return c.s.now + d
}

func (c *Conn) SetDeadline(t time.Time) error {
	if e := c.SetReadDeadline(t); e != nil {
		return e
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.s.op()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.s.cancel(c.rdlEv)
	c.rdlEv = nil
	c.rdl = c.dl(t)
	if c.rdl != 0 {
		c.rdlEv = c.s.At(c.rdl-c.s.now, func() { c.in.rq.WakeAll(c.s) })
	}
	c.in.rq.WakeAll(c.s)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.s.op()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.s.cancel(c.wdlEv)
	c.wdlEv = nil
	c.wdl = c.dl(t)
	if c.wdl != 0 {
		c.wdlEv = c.s.At(c.wdl-c.s.now, func() { c.out.wq.WakeAll(c.s) })
	}
	c.out.wq.WakeAll(c.s)
	return nil
}

// ---- dialing and listening

// DialFate is what happens to one dial.
type DialFate int

const (
	DialOK DialFate = iota
	DialRefused
	DialTimeout_
	DialResetAtOnce
)

func splitAddr(addr string) (string, int, error) {
	h, p, e := net.SplitHostPort(addr)
	if e != nil {
		return "", 0, e
	}
	n, e := strconv.Atoi(p)
	if e != nil || n < 0 || n > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: addr}
	}
	return h, n, nil
}

// NetDial is net.Dial.
func NetDial(network, addr string) (net.Conn, error) { return dial(network, addr, 0) }
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return dial(network, addr, d)
}

// OnDial, if set, is told of every dial made by a host under test.
var _ = errors.New

func dial(network, addr string, timeout time.Duration) (net.Conn, error) {
	s := S
	s.progress()
	h := s.cur.Host
	if !strings.HasPrefix(network, "tcp") {
		return nil, &net.OpError{Op: "dial", Net: network, Err: net.UnknownNetworkError(network)}
	}
	s.Event("%s dial %s", h.Name, addr)
	if s.OnDial != nil && !h.env {
		s.OnDial(h, addr)
	}
	ip, port, e := splitAddr(addr)
	if e != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: e}
	}
	target := &net.TCPAddr{IP: net.ParseIP(ip), Port: port}
	fail := func(e error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: target, Err: e}
	}
	if target.IP == nil {
		return fail(&net.DNSError{Err: "no such host", Name: ip, IsNotFound: true})
	}
	lat := int64(100_000)
	fate := DialOK
	if s.DialFate != nil && !h.env {
		fate = s.DialFate(h, addr)
	}
	limit := int64(127e9)
	if timeout > 0 && int64(timeout) < limit {
		limit = int64(timeout)
	}
	if target.IP.IsUnspecified() || target.IP.IsLoopback() {
		ip = h.IP
	}
	dst := s.hostIP[ip]
	if fate == DialTimeout_ || (dst == nil && fate == DialOK) {
		s.Stats["fault.dial_timeout"]++
		s.sleep(limit, "dial")
		return fail(&os.SyscallError{Syscall: "connect", Err: syscall.ETIMEDOUT})
	}
	s.sleep(lat, "dial")
	var l *SimListener
	if dst != nil {
		l = dst.listens[fmt.Sprint(port)]
	}
	if fate == DialRefused || l == nil || l.closed {
		s.Stats["fault.dial_refused"]++
		return fail(&os.SyscallError{Syscall: "connect", Err: syscall.ECONNREFUSED})
	}
	h.nextPort++
	la := &net.TCPAddr{IP: net.ParseIP(h.IP).To4(), Port: h.nextPort}
	ra := &net.TCPAddr{IP: net.ParseIP(ip).To4(), Port: port}
	c1, c2 := s.DefaultNet(), s.DefaultNet()
	a, b := s.newPair(h, dst, la, ra, c1, c2)
	if !h.env {
		h.conns[a.ID] = a
	}
	dst.conns[b.ID] = b
	if s.OnConn != nil {
		s.OnConn(a, b)
	}
	l.backlog = append(l.backlog, b)
	l.q.WakeOne(s)
	if fate == DialResetAtOnce {
		a.in.doReset()
		a.out.doReset()
	}
	return a, nil
}

func NetListen(network, addr string) (net.Listener, error) {
	s := S
	s.progress()
	h := s.cur.Host
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "missing port in address", Addr: addr}}
	}
	port := addr[i+1:]
	n, e := strconv.Atoi(port)
	if e != nil || n < 0 || n > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: addr}}
	}
	if n == 0 {
		h.nextPort++
		n = h.nextPort
		port = fmt.Sprint(n)
	}
	if l := h.listens[port]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &os.SyscallError{Syscall: "bind", Err: syscall.EADDRINUSE}}
	}
	l := &SimListener{s: s, host: h, addr: &net.TCPAddr{IP: net.ParseIP(h.IP).To4(), Port: n}}
	h.listens[port] = l
	s.Event("%s listen %d", h.Name, n)
	return l, nil
}

func (l *SimListener) Accept() (net.Conn, error) {
	s := l.s
	s.progress()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.backlog) > 0 {
			if l.host.AcceptFault != nil {
				if e := l.host.AcceptFault(); e != nil {
					l.Errs++
					s.Stats["fault.accept_error"]++
					s.Event("%s accept error %v", l.host.Name, e)
					s.sleep(1e6, "accept") // a retry loop takes time
					return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: &os.SyscallError{Syscall: "accept4", Err: e}}
				}
			}
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			s.Event("%s accept conn %d", l.host.Name, c.ID)
			c.AcceptedAt = max(s.now, 1)
			return c, nil
		}
		l.q.Wait(s, "accept")
	}
}

// DropBacklogHead removes the first waiting connection (an aborted connection).
func (l *SimListener) DropBacklogHead() {
	if len(l.backlog) > 0 {
		c := l.backlog[0]
		l.backlog = l.backlog[1:]
		c.in.doReset()
		c.out.doReset()
		c.closed = true
		delete(c.host.conns, c.ID)
	}
}

func (l *SimListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	l.q.WakeAll(l.s)
	for _, c := range l.backlog {
		c.in.doReset()
		c.out.doReset()
		c.closed = true
		delete(c.host.conns, c.ID)
	}
	l.backlog = nil
	return nil
}
func (l *SimListener) Addr() net.Addr              { return l.addr }
func (l *SimListener) SetDeadline(time.Time) error { return nil }
func (h *Host) Listener(port int) *SimListener     { return h.listens[fmt.Sprint(port)] }
func (l *SimListener) Backlog() int                { return len(l.backlog) }

// BacklogHead is the connection that would be accepted next, or nil.
func (l *SimListener) BacklogHead() *Conn {
	if len(l.backlog) == 0 {
		return nil
	}
	return l.backlog[0]
}

// OpenConns lists the sockets the host's process still has open.
func (h *Host) OpenConns() []*Conn {
	var out []*Conn
	for i := 1; i <= h.Sim.conns; i++ {
		if c := h.conns[i]; c != nil {
			out = append(out, c)
		}
	}
	return out
}

func (h *Host) netDown() {
	for _, l := range h.listens {
		l.closed = true
		for _, c := range l.backlog {
			c.closed = true
			c.in.doReset()
			c.out.doReset()
		}
	}
	h.listens = map[string]*SimListener{}
	for i := 1; i <= h.Sim.conns; i++ {
		if c := h.conns[i]; c != nil {
			c.closed = true
			in, out := c.in, c.out
			h.Sim.At(out.cfg.LatMin, func() { in.doReset(); out.doReset() })
		}
	}
	h.conns = map[int]*Conn{}
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return dial(network, addr, d.Timeout)
}
func (d *Dialer) DialContext(_ Context, network, addr string) (net.Conn, error) {
	return dial(network, addr, d.Timeout)
}

type TCPConn = Conn
type TCPListener = SimListener

func NetDialTCP(network string, _, r *net.TCPAddr) (*TCPConn, error) {
	c, e := dial(network, r.String(), 0)
	if e != nil {
		return nil, e
	}
	return c.(*Conn), nil
}
func NetListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	l, e := NetListen(network, fmt.Sprintf(":%d", a.Port))
	if e != nil {
		return nil, e
	}
	return l.(*SimListener), nil
}
func (l *SimListener) AcceptTCP() (*TCPConn, error) {
	c, e := l.Accept()
	if e != nil {
		return nil, e
	}
	return c.(*Conn), nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

func (ListenConfig) Listen(_ Context, network, addr string) (net.Listener, error) {
	return NetListen(network, addr)
}

// NetPipe is net.Pipe (buffered here, which its users cannot rely on either way).
func NetPipe() (net.Conn, net.Conn) {
	s := S
	h := s.cur.Host
	a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	x, y := s.newPair(h, h, a, a, NetCfg{Window: 1 << 16}, NetCfg{Window: 1 << 16})
	return x, y
}

// Pair makes a connected pair between two hosts for component-level scenarios.
func (s *Sim) Pair(a, b *Host, ca, cb NetCfg) (*Conn, *Conn) {
	x, y := s.newPair(a, b, &net.TCPAddr{IP: net.ParseIP(a.IP).To4(), Port: 1000}, &net.TCPAddr{IP: net.ParseIP(b.IP).To4(), Port: 2000 + s.conns}, ca, cb)
	return x, y
}

func NetResolveTCPAddr(network, addr string) (*net.TCPAddr, error) {
	h, p, e := net.SplitHostPort(addr)
	if e != nil {
		return nil, e
	}
	if h != "" && net.ParseIP(h) == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}}
	}
	return net.ResolveTCPAddr(network, net.JoinHostPort(h, p))
}
