package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"syscall"

	gotormain "gotor"
	"gotor/simreset"

	"vsim/rt"
)

// World is a full-system simulation: one client process (all real code) on a
// simulated machine, a tracker, and scripted peers on machines of their own.
type World struct {
	r     *Run
	sim   *rt.Sim
	host  *rt.Host
	tor   *Tor
	have  []bool // pieces whose bytes on disk were right when the client started
	peers []*Peer
	port  int
	upLim int64

	// what this run contains, which decides whose guarantee a failure breaks
	lastIn                                               *Peer
	hostile, stalled, acceptFaults, departed, diskFaults bool
	stallsOn                                             bool

	id        string // the client's id as told to the tracker
	announces []announce
	dials     []string
	baseG     int
	baseT     int
	owner     map[int][]*Peer // piece -> peers it was requested from
	totalReq  int
	nextIP    int
	cliReqs   int
	over      bool
	ups       []upload
	bigWin    bool
	attempts  int
	onAsk     func(p *Peer, idx int)
	longBurst int64
	waiters   []*Peer
	burstEnd  int64
}

type upload struct{ at, n int64 }

type announce struct {
	at    int64
	query map[string][]string
}

type trackerPlan func(h *rt.Host, req *http.Request) rt.HTTPPlan

func (r *Run) newWorld() *World {
	w := &World{r: r, sim: r.Sim, port: 60666, owner: map[int][]*Peer{}}
	w.host = r.Sim.NewHost("client", "10.0.0.1")
	r.Sim.OnConn = w.onConn
	r.Sim.OnDial = func(h *rt.Host, addr string) { w.dials = append(w.dials, addr) }
	return w
}

func (w *World) tags(base string) string {
	t := base
	if w.hostile {
		t += ",C03"
	}
	if w.stalled {
		t += ",C16"
	}
	if w.acceptFaults {
		t += ",C22"
	}
	if w.upLim > 0 {
		t += ",C10"
	}
	return t
}

// slack is extra time to allow for, given the stalls injected so far.
func (w *World) slack() int64 { return 2 * w.sim.StallTotal }

func (w *World) args(extra ...string) []string {
	a := []string{"gotor", "-i", "/t.torrent", "-w", dataDir, "-p", fmt.Sprint(w.port)}
	return append(a, extra...)
}

func (w *World) start(args []string) {
	w.host.Start("main", args, func() {
		simreset.All()
		gotormain.Main()
	})
}

func (w *World) listening() bool {
	l := w.host.Listener(w.port)
	return l != nil
}

func (w *World) dead() bool { return !w.host.ProcessAlive() }

// trackerAnswer is a normal tracker with the given peers (compact form).
func (w *World) trackerAnswer(addrs []peerAddr) trackerPlan {
	return func(h *rt.Host, req *http.Request) rt.HTTPPlan {
		w.noteAnnounce(req)
		var p []byte
		for _, a := range addrs {
			p = append(p, net.ParseIP(a.ip).To4()...)
			p = binary.BigEndian.AppendUint16(p, uint16(a.port))
		}
		body := benc(bdict{"interval": 1800, "complete": 1, "incomplete": len(addrs), "peers": string(p)})
		return rt.HTTPPlan{Delay: 20 * ms, Body: []byte(body)}
	}
}

func (w *World) noteAnnounce(req *http.Request) {
	q := req.URL.Query()
	m := map[string][]string{}
	for k, v := range q {
		m[k] = v
	}
	w.announces = append(w.announces, announce{w.sim.Now(), m})
	if len(q["peer_id"]) == 1 {
		w.id = q.Get("peer_id")
	}
}

type peerAddr struct {
	ip   string
	port int
	id   string
}

// boot starts the client on a good disk with a good tracker and waits until it listens.
func (w *World) boot(plan trackerPlan) bool {
	r := w.r
	w.host.FS.Put("/t.torrent", w.tor.Raw)
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(plan)
	w.have = w.tor.truth(w.host.FS)
	r.sleep(int64(r.Cfg.N(2_000_000_000)))
	ex := []string{}
	if w.upLim > 0 {
		ex = append(ex, "-u", fmt.Sprintf("%dB", w.upLim))
	}
	w.start(w.args(ex...))
	ok := r.until(100*sec, 5*ms, func() bool { return w.listening() || w.dead() || w.sim.Overrun })
	if w.checkAlive("C05,C04") {
		return false
	}
	if !ok || !w.listening() {
		r.Fail("C05,C04", "client did not come up on an intact disk with a working tracker within 100s")
		return false
	}
	r.sleep(10 * ms)
	w.baseG, w.baseT = w.host.NumG(), w.host.Tickers()
	return true
}

// checkAlive reports a dead client; true if it is dead.
func (w *World) checkAlive(extra string) bool {
	if w.sim.Overrun || !w.dead() {
		return w.sim.Overrun
	}
	if w.r.bad() {
		return true
	}
	t := "C03," + extra
	if w.acceptFaults {
		t += ",C22"
	}
	if !w.hostile {
		t = w.tags(t) + ",C02"
	}
	if len(w.dials) > 0 {
		t += ",C17,C18"
	}
	if w.host.Crashed {
		w.r.Fail(t, "client process crashed: %s", w.host.CrashMsg)
		w.r.Notes = append(w.r.Notes, w.host.CrashStk)
	} else {
		w.r.Fail(t, "client process exited (%d): %s", w.host.ExitCode, w.host.ExitMsg)
	}
	return true
}

// ---------------------------------------------------------------- peers

type cut struct {
	n   int
	gap int64
}

type stepKind int

const (
	sSend stepKind = iota
	sWait
	sAwait
	sClose
	sReset
	sVanish
	sHalfClose
	sStopRead
	sSlowRead
	sResume
	sCutIn   // the link breaks after D more bytes from the client
	sWFail   // the client's next write fails
	sIdle    // stay connected with keep-alives for D
	sSilence // stay connected sending nothing for up to D
	sCmd     // do what the scenario says until the connection ends
	sUnlive  // from here on the client may disconnect this peer
)

type step struct {
	kind stepKind
	data []byte
	cuts []cut
	d    int64
	note string
}

// Peer is one scripted peer and what is known about its connection.
type Peer struct {
	w        *World
	name     string
	host     *rt.Host
	conn, cl *rt.Conn // peer's end, client's end
	outgoing bool     // the client dialed
	dialing  bool
	honest   bool // sends only well-formed messages with valid requests, and reads
	live     bool // its connection must be served (honest, undisturbed)
	goodHS   bool // its script contains a valid handshake sent in time
	id       string
	script   []step
	delay    int64
	done     bool
	ended    bool // the peer ended the connection (or broke it)
	quiet    bool
	silent   bool
	bounded  int64 // >0: the client must close this connection this long after the script ended
	why      string

	// sent side (reference parser over everything sent)
	sentN     int64
	sent      []byte
	hsSent    bool // a complete valid handshake was handed to the network
	hsSentAt  int64
	hsBad     bool
	desync    bool
	announced map[int]bool
	pend      []breq // requests that must be answered, in order (honest)
	multi     map[breq]int
	lastSend  int64
	bfSent    bool
	annAt     map[int]int64

	// received side (fed at the moment the client hands bytes to the network)
	rx       []byte
	rxTotal  int64
	gotHS    bool
	gotHSAt  int64
	frames   int
	rxBroken bool
	unchoked bool
	blocks   int
	lastRx   int64
	asked    map[int][]bool // piece -> bytes requested by the client
	askOrder []int
	win      int // how much the client may send before this peer reads (0: as drawn)
	readMode int // 0 fast, 1 slow, 2 stopped
	slowN    int
	slowGap  int64
	askedAt  map[int]int64
	txAt     []int64
	endedAt  int64
	outPort  int
	listens  int  // the port its host listens on for it
	started  bool // accepted, runs its script
	fate     rt.DialFate
	dies     bool
	isProbe  bool
	aborted  bool
	reply    bool // answers block requests with the content
	toSend   [][]byte
	cmds     []func() // for sCmd
	atCmd    bool
	noKA     bool
	dying    []byte
}

func (w *World) newPeer(name string) *Peer {
	w.nextIP++
	ip := fmt.Sprintf("10.1.%d.%d", w.nextIP/250, 1+w.nextIP%250)
	p := &Peer{w: w, name: fmt.Sprintf("%s%d", name, w.nextIP), announced: map[int]bool{}, annAt: map[int]int64{}, multi: map[breq]int{}, asked: map[int][]bool{}, askedAt: map[int]int64{}}
	p.id = fmt.Sprintf("-XX0001-%012d", w.nextIP)
	if q := w.lastIn; q != nil && name != "out" && w.r.Gen.Chance(1, 10) { // behind the same address as another
		p.host = q.host
		if w.r.Gen.Chance(1, 2) {
			p.id = q.id
		}
	} else {
		p.host = w.sim.NewEnvHost(p.name, ip)
	}
	if name != "out" {
		w.lastIn = p
	}
	w.peers = append(w.peers, p)
	return p
}

func (w *World) onConn(a, b *rt.Conn) {
	for _, p := range w.peers {
		if p.conn != nil {
			continue
		}
		if a.Host() == p.host && !p.outgoing && p.dialing {
			p.conn, p.cl = a, b
		} else if la, ok := b.LocalAddr().(*net.TCPAddr); b.Host() == p.host && a.Host() == w.host && ok && la.Port == p.outPort {
			p.conn, p.cl = b, a
		} else {
			continue
		}
		p.lastRx = w.sim.Now()
		p.cl.OnWrite = p.tap
		if w.bigWin {
			p.cl.OutCfg().Window = 1 << 22
		}
		if p.win > 0 {
			p.cl.OutCfg().Window = p.win
		}
		return
	}
	w.r.ev("unexpected connection")
}

// clientClosed: the client has closed its end.
func (p *Peer) clientClosed() bool { return p.cl != nil && p.cl.IsClosed() }

// open: neither end is closed.
func (p *Peer) open() bool {
	return p.conn != nil && !p.conn.IsClosed() && !p.cl.IsClosed() && !p.ended
}

// connected: open, and both handshakes were exchanged.
func (p *Peer) connected() bool { return p.open() && p.gotHS && p.hsSent }

// ---- what the client sends

func (p *Peer) fail(props, format string, a ...any) {
	p.w.r.Fail(props, "[%s] "+format, append([]any{p.name}, a...)...)
}

// tap sees every byte the client hands to the network on this connection.
func (p *Peer) tap(b []byte) {
	w := p.w
	now := w.sim.Now()
	p.rxTotal += int64(len(b))
	if !p.outgoing && !p.hsSent {
		p.fail("C04", "client sent %d bytes before receiving a complete valid handshake", len(b))
	}
	if p.outgoing && p.rxTotal > 68 && !p.hsSent {
		p.fail("C17", "client sent %d bytes beyond its handshake before receiving a valid one from the peer", p.rxTotal-68)
	}
	p.lastRx = now
	if p.quiet {
		p.txAt = append(p.txAt, now)
	}
	if p.rxBroken {
		return
	}
	p.rx = append(p.rx, b...)
	if !p.gotHS {
		want := mkHandshake(w.tor.InfoHash, "", 0)[:48]
		n := min(len(p.rx), 48)
		for i := 0; i < n; i++ {
			if i >= 20 && i < 28 {
				continue // reserved
			}
			if p.rx[i] != want[i] {
				t := "C04,C23"
				if p.outgoing {
					t = "C17,C23"
				}
				p.fail(t, "client's stream does not start with this torrent's handshake (byte %d is %#x, not %#x)", i, p.rx[i], want[i])
				p.rxBroken = true
				return
			}
		}
		if len(p.rx) < 68 {
			return
		}
		id := string(p.rx[48:68])
		if w.id != "" && id != w.id {
			p.fail("C04,C17,C19", "client's handshake carries id %q, the tracker was told %q", id, w.id)
		}
		p.gotHS, p.gotHSAt = true, now
		p.rx = p.rx[68:]
		w.r.ev("%s: handshake from client", p.name)
	}
	for len(p.rx) >= 4 {
		l := binary.BigEndian.Uint32(p.rx)
		if l == 0 {
			p.frames++
			p.rx = p.rx[4:]
			continue
		}
		if l > 1<<26 {
			p.fail("C23", "client sent a frame with absurd length %d: % x", l, p.rx[:min(len(p.rx), 32)])
			p.rxBroken = true
			return
		}
		if len(p.rx) >= 5 {
			if e := p.frameOK(p.rx[4], int(l)); e != "" {
				t := "C23"
				if p.frames == 0 && !p.outgoing && p.rx[4] != mBitfield {
					t = "C23,C04"
				}
				p.fail(t, "client sent an ill-formed message: %s: % x", e, p.rx[:min(len(p.rx), 32)])
				p.rxBroken = true
				return
			}
		}
		if len(p.rx) < 4+int(l) {
			return
		}
		f := p.rx[4 : 4+l]
		p.frame(f[0], f[1:])
		p.frames++
		p.rx = p.rx[4+l:]
	}
}

func (p *Peer) frameOK(id byte, l int) string {
	w := p.w
	ok := true
	switch id {
	case mChoke, mUnchoke, mInterested, mNotInterested:
		ok = l == 1
	case mHave:
		ok = l == 5
	case mBitfield:
		ok = l == 1+(w.tor.NP+7)/8
	case mRequest, mCancel:
		ok = l == 13
	case mPiece:
		ok = l >= 9
	default:
		return fmt.Sprintf("unknown type %d", id)
	}
	if !ok {
		return fmt.Sprintf("type %d with length %d", id, l)
	}
	if p.frames == 0 && !p.outgoing && id != mBitfield {
		return fmt.Sprintf("first message after the handshake has type %d, not bitfield", id)
	}
	if p.frames > 0 && id == mBitfield {
		return "bitfield that is not the first message"
	}
	return ""
}

func (p *Peer) frame(id byte, pl []byte) {
	w := p.w
	switch id {
	case mUnchoke:
		p.unchoked = true
	case mBitfield:
		want := bitfieldBytes(w.have)
		if string(want) != string(pl) {
			p.fail("C04,C05", "client advertised %x, the pieces on disk are %x", pl, want)
		}
	case mHave:
		i := binary.BigEndian.Uint32(pl)
		if int(i) >= w.tor.NP || !w.have[i] {
			p.fail("C05,C23", "client announced piece %d which it does not have", i)
		}
	case mPiece:
		idx, begin := binary.BigEndian.Uint32(pl), binary.BigEndian.Uint32(pl[4:])
		p.block(idx, begin, pl[8:])
	case mRequest:
		p.request(int(binary.BigEndian.Uint32(pl)), int(binary.BigEndian.Uint32(pl[4:])), int(binary.BigEndian.Uint32(pl[8:])))
	}
}

// block checks an uploaded block.
func (p *Peer) block(idx, begin uint32, data []byte) {
	w := p.w
	t := w.tor
	p.blocks++
	w.ups = append(w.ups, upload{w.sim.Now(), int64(len(data)) + 13})
	q := breq{idx, begin, uint32(len(data))}
	w.r.ev("%s: block %v", p.name, q)
	if int(idx) >= t.NP || int64(begin)+int64(len(data)) > int64(t.PLen(int(idx))) {
		p.fail("C01", "block %v lies outside of any piece (%d pieces of %d, last %d)", q, t.NP, t.PieceLen, t.PLen(t.NP-1))
		return
	}
	if !w.have[idx] {
		p.fail("C01", "block %v of a piece whose data on disk is not valid", q)
	}
	want := t.Piece(int(idx))[begin : int(begin)+len(data)]
	if string(want) != string(data) {
		k := 0
		for want[k] == data[k] {
			k++
		}
		p.fail("C01", "block %v differs from the torrent's content at its byte %d", q, k)
	}
	if p.honest {
		if len(p.pend) == 0 {
			p.fail("C01,C02", "block %v answers no outstanding request of this peer", q)
			return
		}
		if p.pend[0] != q {
			in := false
			for _, x := range p.pend {
				if x == q {
					in = true
				}
			}
			if in {
				p.fail("C02", "block %v sent out of order or earlier request skipped, next expected is %v", q, p.pend[0])
			} else {
				p.fail("C01,C02", "block %v was not requested (any more), next expected is %v", q, p.pend[0])
			}
			return
		}
		p.pend = p.pend[1:]
		return
	}
	if len(data) == 0 {
		return
	}
	if p.multi[q] <= 0 {
		p.fail("C01", "block %v answers no request of this peer", q)
		return
	}
	p.multi[q]--
}

// request checks a download request of the client.
func (p *Peer) request(idx, begin, n int) {
	w := p.w
	t := w.tor
	w.cliReqs++
	w.ups = append(w.ups, upload{w.sim.Now(), 17})
	w.r.ev("%s: client requests (%d,%d,%d)", p.name, idx, begin, n)
	if idx >= t.NP || n <= 0 || begin+n > t.PLen(min(idx, t.NP-1)) {
		p.fail("C18", "client requested (%d,%d,%d), outside of any piece", idx, begin, n)
		return
	}
	if n > 16384 {
		p.fail("C18", "client requested %d bytes at once", n)
	}
	if w.have[idx] {
		p.fail("C18", "client requested piece %d which it already has", idx)
	}
	if !p.announced[idx] {
		p.fail("C18", "client requested piece %d which this peer never announced", idx)
	}
	a := p.asked[idx]
	if a == nil {
		a = make([]bool, t.PLen(idx))
		p.asked[idx] = a
		p.askedAt[idx] = w.sim.Now()
		p.askOrder = append(p.askOrder, idx)
		for _, o := range w.owner[idx] {
			if o != p && o.connected() {
				w.conflict(p, o, idx)
			}
		}
		if w.onAsk != nil {
			w.onAsk(p, idx)
		}
		w.owner[idx] = append(w.owner[idx], p)
	}
	for i := begin; i < begin+n; i++ {
		if a[i] {
			p.fail("C18", "client requested byte %d of piece %d twice", i, idx)
			break
		}
		a[i] = true
	}
	if p.reply {
		p.toSend = append(p.toSend, msg(mPiece, u32s(uint32(idx), uint32(begin)), t.Piece(idx)[begin:begin+n]))
	}
}

// conflict: a piece is requested from p although o, which it was requested from
// before, looks connected. If the client was just letting go of o it closes soon.
func (w *World) conflict(p, o *Peer, idx int) {
	w.sim.At(5*sec+w.slack(), func() {
		if !o.cl.IsClosed() && !o.ended {
			p.fail("C18,C11", "piece %d requested from %s while still assigned to connected %s", idx, p.name, o.name)
		}
	})
}

// ---- what the peer sends

func (p *Peer) noteSent(b []byte) {
	w := p.w
	now := w.sim.Now()
	p.lastSend = now
	if p.desync || p.hsBad {
		return
	}
	p.sent = append(p.sent, b...)
	if !p.hsSent {
		if len(p.sent) < 68 {
			return
		}
		h := p.sent[:68]
		if h[0] != 19 || string(h[1:20]) != "BitTorrent protocol" || string(h[28:48]) != w.tor.InfoHash {
			p.hsBad = true
			return
		}
		p.hsSent, p.hsSentAt = true, now
		p.sent = p.sent[68:]
	}
	for len(p.sent) >= 4 {
		l := binary.BigEndian.Uint32(p.sent)
		if l == 0 {
			p.sent = p.sent[4:]
			continue
		}
		if l > 1<<24 {
			p.desync = true
			return
		}
		if len(p.sent) < 4+int(l) {
			return
		}
		f := p.sent[4 : 4+l]
		p.sent = p.sent[4+l:]
		switch {
		case f[0] == mRequest && l == 13:
			q := breq{binary.BigEndian.Uint32(f[1:]), binary.BigEndian.Uint32(f[5:]), binary.BigEndian.Uint32(f[9:])}
			w.totalReq++
			p.multi[q]++
			if p.honest {
				p.pend = append(p.pend, q)
			}
		case f[0] == mHave && l == 5:
			if i := binary.BigEndian.Uint32(f[1:]); int64(i) < int64(w.tor.NP) {
				p.announce(int(i))
			}
		case f[0] == mBitfield && int(l) == 1+(w.tor.NP+7)/8:
			for i := 0; i < w.tor.NP; i++ {
				if f[1+i/8]&(128>>(i%8)) != 0 {
					p.announce(i)
				}
			}
		}
	}
}

func (p *Peer) announce(i int) {
	if !p.announced[i] {
		p.announced[i] = true
		p.annAt[i] = p.w.sim.Now()
	}
}

// send writes bytes as the peer, in the given pieces.
func (p *Peer) send(b []byte, cuts []cut) error {
	for _, c := range cuts {
		if len(b) == 0 {
			break
		}
		n := min(c.n, len(b))
		if n > 0 {
			p.noteSent(b[:n])
			if _, e := p.conn.Write(b[:n]); e != nil {
				return e
			}
			b = b[n:]
		}
		if c.gap > 0 {
			p.w.r.sleep(c.gap)
		}
	}
	if len(b) > 0 {
		p.noteSent(b)
		if _, e := p.conn.Write(b); e != nil {
			return e
		}
	}
	return nil
}

func (p *Peer) reader() {
	buf := make([]byte, 65536)
	for {
		if p.ended || p.conn.IsClosed() {
			return
		}
		switch p.readMode {
		case 2:
			p.w.r.sleep(200 * ms)
			continue
		case 1:
			p.w.r.sleep(p.slowGap)
			if p.ended || p.conn.IsClosed() {
				return
			}
			if _, e := p.conn.Read(buf[:p.slowN]); e != nil {
				return
			}
			continue
		}
		if _, e := p.conn.Read(buf); e != nil {
			return
		}
	}
}

// checkServed: an undisturbed honest peer must not have been disconnected.
func (p *Peer) checkServed() bool {
	if !p.live || p.ended || p.w.r.bad() || p.w.dead() || p.conn == nil {
		return true
	}
	if p.clientClosed() && !p.conn.IsClosed() {
		if !p.hsInTime() {
			return true
		}
		t := p.w.tags("C02,C04")
		if p.quiet {
			t += ",C15"
		}
		if p.outgoing {
			t += ",C17"
		}
		p.fail(t, "client closed the connection of a well-behaved peer %.3fs after it was opened, %.3fs after the peer last sent data (sent %d bytes, got %d)",
			f(p.cl.ClosedAt-p.cl.OpenedAt), f(p.cl.ClosedAt-p.lastSend), p.sentN, p.rxTotal)
		return false
	}
	return true
}

func f(ns int64) float64 { return float64(ns) / 1e9 }

// hsInTime: the peer's complete handshake certainly arrived within the second
// that the client grants, stalls injected into the client included.
func (p *Peer) hsInTime() bool {
	if !p.hsSent {
		return false
	}
	from := p.cl.OpenedAt
	if !p.outgoing && p.cl.AcceptedAt > from {
		from = p.cl.AcceptedAt
	}
	return p.hsSentAt-from+p.conn.OutCfg().LatMax+p.w.sim.StallTotal < 900*ms
}

// bound is how long serving everything asked for so far may take.
func (p *Peer) bound() int64 {
	w := p.w
	b := 40*sec + w.slack()
	rtt := p.conn.OutCfg().LatMax + p.conn.InCfg().LatMax + 2*ms
	var want int64
	for _, q := range p.pend {
		want += int64(q.n) + 17
	}
	win := int64(p.conn.InCfg().Window)
	b += (want/win + 1) * rtt * 2
	win = int64(p.conn.OutCfg().Window)
	b += (p.sentN/win + 1) * rtt * 2
	if p.readMode == 1 {
		b += (want/int64(p.slowN) + 2) * p.slowGap * 2
	}
	if w.upLim > 0 {
		b += int64(w.totalReq+w.cliReqs+20) * sec * 3 / 2
	}
	if l := w.host.FS.LatMax; l > 0 {
		b += int64(w.totalReq+10) * 6 * l
	}
	return b
}

// await waits until every request is answered.
func (p *Peer) await() bool {
	w := p.w
	limit, st := w.sim.Now()+p.bound(), w.sim.StallTotal
	for len(p.pend) > 0 && w.sim.Now() < limit+2*(w.sim.StallTotal-st) {
		if w.r.bad() || w.dead() || w.sim.Overrun || p.clientClosed() || p.ended {
			break
		}
		if w.sim.Now()-p.lastSend > 50*sec {
			p.send(keepAlive, nil)
		}
		w.r.sleep(20 * ms)
		if len(p.pend) > 0 && w.sim.Now()-p.lastSend > 2*sec {
			w.r.sleep(500 * ms)
		}
	}
	if w.r.bad() || w.dead() || w.sim.Overrun {
		return false
	}
	if !p.checkServed() {
		return false
	}
	if p.live && len(p.pend) > 0 && !p.clientClosed() && !p.ended {
		t := w.tags("C02")
		if p.outgoing {
			t += ",C17"
		}
		if w.upLim > 0 {
			t += ",C16"
		}
		p.fail(t, "request %v not answered %.1fs after the peer last sent data (%d outstanding, %d blocks received)", p.pend[0], f(w.sim.Now()-p.lastSend), len(p.pend), p.blocks)
		return false
	}
	return true
}

// run plays the script on an established connection.
func (p *Peer) run() {
	w := p.w
	r := w.r
	w.sim.GoOn(p.host, p.name+".reader", p.reader)
	for _, st := range p.script {
		if r.bad() || w.dead() || p.ended {
			break
		}
		if st.note != "" {
			r.ev("%s: %s", p.name, st.note)
		}
		var e error
		switch st.kind {
		case sSend:
			p.sentN += int64(len(st.data))
			e = p.send(st.data, st.cuts)
		case sWait:
			r.sleep(st.d)
		case sAwait:
			p.await()
		case sClose:
			p.end()
			p.conn.Close()
		case sReset:
			p.end()
			p.conn.Abort()
		case sVanish:
			p.end()
			p.conn.BlackHole(true)
		case sHalfClose:
			p.live = false
			p.conn.CloseWrite()
		case sStopRead:
			p.readMode = 2
		case sSlowRead:
			p.slowN, p.slowGap = 1+int(st.d%97)*40, 10*ms
			if len(st.cuts) > 0 {
				p.slowN, p.slowGap = st.cuts[0].n, st.cuts[0].gap
			}
			p.readMode = 1
		case sResume:
			p.readMode = 0
		case sCutIn:
			p.live = false
			p.cl.CutAfter(st.d)
		case sWFail:
			p.live = false
			n, skip, times := int(st.d), 0, -1
			if len(st.cuts) > 0 {
				skip, times = st.cuts[0].n, int(st.cuts[0].gap)
			}
			p.cl.WriteHook = func(m int) (int, error) {
				if skip--; skip >= 0 || times == 0 {
					return 0, nil
				}
				times--
				w.sim.Stats["fault.write_error"]++
				return min(n, m), syscall.EHOSTUNREACH
			}
		case sUnlive:
			p.checkServed()
			p.live = false
		case sIdle:
			till := w.sim.Now() + st.d
			for w.sim.Now() < till && !r.bad() && !p.clientClosed() && !w.dead() {
				d := min(int64(50*sec), till-w.sim.Now())
				r.sleep(d)
				if w.sim.Now() < till && !p.ended {
					p.send(keepAlive, nil)
				}
			}
		case sCmd:
			p.atCmd = true
			for !r.bad() && !p.ended && !p.clientClosed() && !w.dead() {
				if len(p.cmds) > 0 {
					c := p.cmds[0]
					p.cmds = p.cmds[1:]
					c()
				} else if len(p.toSend) > 0 {
					b := p.toSend[0]
					p.toSend = p.toSend[1:]
					p.sentN += int64(len(b))
					p.send(b, nil)
				} else if !p.noKA && w.sim.Now()-p.lastSend > 45*sec {
					p.send(keepAlive, nil)
				} else {
					r.sleep(100 * ms)
				}
			}
		case sSilence:
			till := w.sim.Now() + st.d
			for w.sim.Now() < till && !r.bad() && !p.clientClosed() && !w.dead() {
				r.sleep(min(int64(1*sec), till-w.sim.Now()))
			}
		}
		for len(p.toSend) > 0 && e == nil && !p.ended && st.kind != sWait && p.hsSent && len(p.sent) == 0 { // not in the middle of a message
			b := p.toSend[0]
			p.toSend = p.toSend[1:]
			p.sentN += int64(len(b))
			e = p.send(b, nil)
		}
		if e != nil {
			r.ev("%s: send failed: %v", p.name, e)
			break
		}
		if !p.checkServed() {
			break
		}
	}
	p.scriptOver()
}

func (p *Peer) end() {
	p.checkServed()
	p.ended = true
	p.endedAt = p.w.sim.Now()
	p.live = false
	p.w.departed = true
}

func (p *Peer) scriptOver() {
	w := p.w
	if p.bounded > 0 && !p.ended && !w.r.bad() {
		lim := p.bounded + w.slack()
		if p.silent { // counted from the last data
			lim = p.lastSend + 132*sec + p.conn.OutCfg().LatMax + w.slack() - w.sim.Now()
		}
		ok := w.r.until(lim, 100*ms, func() bool { return p.clientClosed() || w.dead() || w.r.bad() })
		if !ok && !w.r.bad() && !w.dead() {
			p.fail(p.why, "client did not close the connection within %.0fs", f(lim))
		}
	}
	p.done = true
	if p.conn == nil || p.ended || p.silent || !p.live || p.bounded > 0 {
		return
	}
	w.sim.GoOn(p.host, p.name+".alive", func() { // stay connected until the run is over
		for p.open() && p.live && !w.dead() && !w.r.bad() {
			w.r.sleep(10 * sec)
			if p.open() && p.live && w.sim.Now()-p.lastSend > 45*sec {
				if p.send(keepAlive, nil) != nil {
					return
				}
			}
		}
	})
}

// dialIn connects an incoming peer and plays its script.
func (p *Peer) dialIn() {
	w := p.w
	w.sim.GoOn(p.host, p.name, func() {
		w.r.sleep(p.delay)
		if w.dead() || w.r.bad() {
			p.done = true
			return
		}
		for busy := true; busy; { // one at a time from each host
			busy = false
			for _, q := range w.peers {
				busy = busy || q != p && q.host == p.host && q.dialing
			}
			if busy {
				w.r.sleep(ms)
			}
		}
		p.dialing = true
		_, e := rt.NetDial("tcp", fmt.Sprintf("%s:%d", w.host.IP, w.port))
		p.dialing = false
		if e != nil {
			if !w.dead() {
				p.fail(w.tags("C02")+",C22", "cannot connect to the client: %v", e)
			}
			p.done = true
			return
		}
		p.run()
	})
}

// listenFor lets the client connect to the peer.
func (p *Peer) listenFor(port int, onAccept func()) {
	w := p.w
	p.outgoing = true
	for _, q := range w.peers {
		if q != p && q.host == p.host && q.listens == port { // the tracker names it twice
			return
		}
	}
	p.listens = port
	w.sim.GoOn(p.host, p.name, func() {
		l, e := rt.NetListen("tcp", fmt.Sprintf(":%d", port))
		if e != nil {
			panic(e)
		}
		for {
			if _, e = l.Accept(); e != nil {
				panic(e)
			}
			for _, q := range w.peers {
				if q.host != p.host || q.outPort != port || q.conn == nil || q.started {
					continue
				}
				q.started = true
				if onAccept != nil {
					onAccept()
				}
				w.sim.GoOn(q.host, q.name, func() {
					w.r.sleep(q.delay)
					q.run()
				})
				break
			}
		}
	})
}

// waitDone waits for all scripts.
func (w *World) waitDone(limit int64) bool {
	return w.r.until(limit, 100*ms, func() bool {
		if w.r.bad() || w.dead() || w.sim.Overrun {
			return true
		}
		for _, p := range w.peers {
			if !p.done && (p.conn != nil || !p.outgoing) {
				return false
			}
		}
		return true
	})
}

// endAll lets every peer that is still connected go.
func (w *World) endAll() {
	for _, p := range w.peers {
		if p.conn != nil && !p.conn.IsClosed() && !p.ended {
			p.end()
			p.conn.Close()
		}
	}
}

// leakCheck: with all peers gone nothing of their connections is left.
func (w *World) leakCheck() {
	r := w.r
	if r.bad() || w.checkAlive("") {
		return
	}
	ok := r.until(420*sec+w.slack(), 1*sec, func() bool {
		return r.bad() || w.dead() || (len(w.host.OpenConns()) == 0 && w.host.NumG() <= w.baseG && w.host.Tickers() <= w.baseT)
	})
	if r.bad() || w.checkAlive("") || ok {
		return
	}
	t := "C14"
	if w.hostile {
		t += ",C03"
	}
	if len(w.dials) > 0 {
		t += ",C17"
	}
	if n := len(w.host.OpenConns()); n > 0 {
		var names []string
		for _, c := range w.host.OpenConns() {
			for _, p := range w.peers {
				if p.cl == c {
					names = append(names, p.name)
				}
			}
		}
		r.Fail(t, "%d connections still open %.0fs after all peers ended theirs (%s)", n, 420.0, strings.Join(names, " "))
		return
	}
	if n := w.host.Tickers() - w.baseT; n > 0 && w.host.NumG() <= w.baseG {
		r.Fail(t, "%d tickers go on ticking after all connections ended", n)
		return
	}
	r.Fail(t, "%d goroutines left over after all connections ended: %s", w.host.NumG()-w.baseG, strings.Join(w.host.Goroutines(), "; "))
}

func sortedKeys(m map[int]bool) []int {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}
