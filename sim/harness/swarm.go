package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"net/http"
	"syscall"

	"vsim/rt"
)

// The "swarm" scenarios: one real client, scripted peers on all sides. The focus
// property decides the mix; every oracle is always on.

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C22", "C23"} {
		p := p
		scenarios["swarm:"+p] = func(r *Run) { r.swarm(p) }
	}
}

func (r *Run) swarm(focus string) {
	g := r.Gen
	w := r.newWorld()
	maxTotal := 120_000
	if g.Chance(1, 10) {
		maxTotal = 400_000
	}
	w.tor = genTor(g, maxTotal)
	if focus == "C16" || focus == "C23" || focus == "C10" { // responses big enough to fill buffers
		for k := 0; k < 5 && w.tor.Total < 20000; k++ {
			w.tor = genTor(g, maxTotal)
		}
	}
	if focus == "C23" && g.Chance(1, 3) { // blocks longer than usual
		for k := 0; k < 8 && w.tor.PLen(0) <= 16384; k++ {
			w.tor = genTor(g, maxTotal)
		}
	}
	if focus == "C18" && g.Chance(1, 8) {
		for k := 0; k < 8 && w.tor.NP > 1; k++ {
			w.tor = genTor(g, maxTotal)
		}
	}
	if (focus == "C03" || focus == "C04" || focus == "C14") && g.Chance(1, 5) { // no spare bits
		for k := 0; k < 30 && w.tor.NP%8 != 0; k++ {
			w.tor = genTor(g, maxTotal)
		}
	}
	fs := w.host.FS
	w.tor.putAll(fs)

	// what the client lacks
	lack := 0
	switch focus {
	case "C18", "C17":
		lack = []int{100, 50, 20}[g.N(3)]
	case "C14":
		lack = []int{0, 50, 100}[g.N(3)]
	case "C16", "C15":
		lack = []int{0, 0, 30}[g.N(3)]
	case "C04":
		lack = []int{0, 30, 60, 100}[g.N(4)]
	default:
		lack = []int{0, 0, 30, 60}[g.N(4)]
	}
	if lack > 0 {
		for i := 0; i < w.tor.NP; i++ {
			if g.N(100) < lack {
				w.tor.flipDisk(fs, i*w.tor.PieceLen+g.N(w.tor.PLen(i)), byte(1+g.N(255)))
			}
		}
	}
	w.have = w.tor.truth(fs)

	stalls := false
	switch focus {
	case "C10", "C09":
		w.bigWin = focus == "C09"
		w.upLim = int64([]int{1, 50, 1000, 20000, 100000}[g.N(5)])
	case "C16", "C23", "C01", "C02":
		if g.Chance(1, 4) {
			w.upLim = int64([]int{50, 1000, 20000, 100000}[g.N(4)])
		}
	}
	if w.upLim <= 0 && focus != "C15" {
		stalls = true
	}
	if g.Chance(1, 3) {
		fs.LatMax = []int64{us * 100, ms, 20 * ms}[g.N(3)]
	}
	if g.Chance(1, 2) {
		fs.SplitIO = []int{1, 7, 64, 1000, 4096}[g.N(5)]
		if w.tor.Total > 5000 && fs.SplitIO < 64 {
			fs.SplitIO = 512
		}
	}

	honest := func(n int, o honestOpt) {
		for i := 0; i < n; i++ {
			p := w.newPeer("good")
			p.delay = int64(g.N(1500)) * ms
			w.genHonest(g, p, o)
		}
	}
	mixed := func(n int, f func(*rt.Stream, *Peer)) {
		for i := 0; i < n; i++ {
			p := w.newPeer("peer")
			p.delay = int64(g.N(1500)) * ms
			f(g, p)
		}
	}
	std := honestOpt{batches: g.Range(1, 3), perBatch: 6, noise: 3, piggy: true, await: 5, maxGap: 100 * ms, bf: 5}
	var outs []*Peer
	out := func(n int, kind func(*rt.Stream, *Peer)) {
		for i := 0; i < n; i++ {
			p := w.newPeer("out")
			p.outgoing = true
			if len(outs) > 0 && g.Chance(1, 6) { // behind the same address as another
				p.host = outs[g.N(len(outs))].host
			}
			kind(g, p)
			outs = append(outs, p)
		}
	}
	leakCheck := false
	coverage := false

	switch focus {
	case "C01":
		o := std
		o.perBatch = 12
		honest(g.Range(2, 6), o)
		w.hostile = g.Chance(1, 3)
		if w.hostile {
			mixed(g.Range(1, 3), w.genHostile)
		}
		if g.Chance(1, 5) { // the disk fails now and then
			w.diskFaults = true
		}
	case "C02":
		o := std
		o.batches, o.noise, o.maxGap = g.Range(1, 6), []int{0, 3, 6, 8}[g.N(4)], 400*ms
		o.pipeline = w.upLim <= 0 && g.Chance(1, 4)
		honest(g.Range(1, 4), o)
	case "C03":
		honest(g.Range(0, 2), std)
		mixed(g.Range(1, 6), w.genHostile)
		w.hostile = true
		leakCheck = g.Chance(1, 3)
	case "C04":
		mixed(g.Range(2, 7), w.genHSTest)
		w.hostile = true
	case "C09", "C10":
		o := std
		o.await = 3
		honest(g.Range(1, 4), o)
		if focus == "C10" && g.Chance(1, 3) {
			w.stalled = true
			mixed(g.Range(1, 2), w.genStall)
		}
	case "C14":
		mixed(g.Range(1, 5), func(g *rt.Stream, p *Peer) {
			w.genLeech(g, p, false)
			w.genDeath(g, p)
		})
		if g.Chance(1, 3) {
			mixed(g.Range(1, 2), w.genHostile)
			w.hostile = true
		}
		out(g.N(3), func(g *rt.Stream, p *Peer) { w.genLeech(g, p, true); w.genDeath(g, p) })
		if lack > 0 { // somebody who can take over
			mixed(1, func(g *rt.Stream, p *Peer) {
				w.genLeech(g, p, false)
				p.delay += int64(g.N(20)) * sec
				p.script = append(p.script, step{kind: sIdle, d: 60 * sec})
			})
			coverage = true
		}
		leakCheck = true
	case "C15":
		w.genQuiet(g, mixed, out)
	case "C16":
		w.stalled = true
		mixed(g.Range(1, 6), w.genStall)
		if g.Chance(1, 6) { // many at once
			mixed(g.Range(6, 20), func(g *rt.Stream, p *Peer) { w.genStall(g, p); p.delay = int64(g.N(300)) * ms })
		}
		if g.Chance(1, 4) { // a crowd that stalls before the handshake
			mixed(g.Range(10, 50), func(g *rt.Stream, p *Peer) {
				p.delay = int64(g.N(300)) * ms
				if g.Chance(1, 2) {
					p.script = append(p.script, send(w.goodHandshake(p, g)[:g.N(68)], nil))
				}
				p.script = append(p.script, step{kind: sSilence, d: int64(g.N(20)) * sec})
			})
		}
		o := std
		o.batches = g.Range(1, 4)
		honest(g.Range(1, 3), o)
		leakCheck = g.Chance(1, 6)
	case "C17":
		out(g.Range(1, 5), w.genOutgoing)
		honest(g.Range(0, 1), std)
		coverage = true
		leakCheck = g.Chance(1, 3)
	case "C18":
		n := g.Range(1, 4)
		for i := 0; i < n; i++ {
			if g.Chance(1, 2) {
				mixed(1, func(g *rt.Stream, p *Peer) { w.genLeech(g, p, false); w.leechEnd(g, p) })
			} else {
				out(1, func(g *rt.Stream, p *Peer) { w.genLeech(g, p, true); w.leechEnd(g, p) })
			}
		}
		if g.Chance(1, 3) {
			w.stalled = true
			mixed(g.Range(1, 2), w.genStalledLeech)
		}
		coverage = true
	case "C22":
		w.acceptFaults = true
		o := std
		o.batches = g.Range(1, 5)
		honest(g.Range(2, 5), o)
		for _, p := range w.peers {
			p.delay = int64(g.N(6000)) * ms
		}
		if g.Chance(1, 5) { // a long one
			w.longBurst = int64(g.Range(60, 3000)) * sec
			mixed(g.Range(1, 3), func(g *rt.Stream, p *Peer) { // wait to be accepted
				p.delay = 11*sec + int64(g.N(10000))*ms
				p.goodHS = true
				p.script = append(p.script, send(w.goodHandshake(p, g), nil), step{kind: sSilence, d: w.longBurst + 30*sec})
				w.waiters = append(w.waiters, p)
			})
			for _, p := range w.peers[:len(w.peers)-len(w.waiters)] {
				for k := g.N(4); k > 0; k-- {
					p.script = append(p.script, step{kind: sIdle, d: int64(g.N(int(w.longBurst/sec/3))) * sec})
					if hv := w.haveList(); len(hv) > 0 {
						p.script = append(p.script, send(genReq(g, w, hv).enc(), nil))
					}
					p.script = append(p.script, step{kind: sAwait})
				}
			}
		}
	case "C23":
		o := std
		o.batches, o.await = g.Range(1, 5), 2
		honest(g.Range(1, 3), o)
		mixed(g.Range(0, 2), w.genStall)
		mixed(g.Range(0, 2), w.genCrawl)
		mixed(g.Range(0, 2), w.genTorn)
		w.stalled = true
		mixed(g.Range(0, 2), func(g *rt.Stream, p *Peer) { w.genLeech(g, p, false); w.genDeath(g, p) })
		out(g.N(2), func(g *rt.Stream, p *Peer) {
			w.genLeech(g, p, true)
			p.script = append(p.script, step{kind: sIdle, d: 130 * sec})
		})
		for _, p := range w.peers {
			p.script = append(p.script, step{kind: sIdle, d: int64(g.N(130)) * sec})
		}
	}

	// tell the tracker about the outgoing ones
	var addrs []peerAddr
	for i, p := range outs {
		port := g.Range(1, 65535)
		if i > 0 && g.Chance(1, 8) { // named twice
			if q := outs[g.N(i)]; q.fate == rt.DialOK && p.fate == rt.DialOK {
				p.host, p.id, p.outPort = q.host, q.id, q.outPort
				p.listenFor(p.outPort, nil)
				addrs = append(addrs, peerAddr{p.host.IP, p.outPort, p.id})
				continue
			}
		}
		for k := 0; k < len(outs); k++ {
			if q := outs[k]; q != p && q.host == p.host && q.outPort == port {
				port, k = port%65535+1, -1
			}
		}
		addrs = append(addrs, peerAddr{p.host.IP, port, p.id})
		p.outPort = port
		switch p.fate {
		case rt.DialOK:
			p.listenFor(port, nil)
		case rt.DialResetAtOnce:
			p.listenFor(port, nil)
		default:
			p.done = true
		}
	}
	fates := map[string]rt.DialFate{}
	for _, p := range outs {
		fates[fmt.Sprintf("%s:%d", p.host.IP, p.outPort)] = p.fate
	}
	r.Sim.DialFate = func(h *rt.Host, addr string) rt.DialFate { return fates[addr] }

	dict := g.Chance(1, 3)
	r.Sim.MaxSwitch = 3_000_000
	plan := w.trackerAnswer(addrs)
	if dict {
		plan = w.trackerDict(addrs)
	}
	if !w.boot(plan) {
		return
	}
	r.drawSched(stalls)
	r.Count["peers"] += int64(len(w.peers))
	if w.diskFaults {
		n := g.Range(5, 60)
		er := []error{syscall.EIO, syscall.EINTR, syscall.EAGAIN}[g.N(3)]
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if op.Op == "read" && r.Fault.Chance(1, n) {
				for _, p := range w.peers {
					p.live = false
				}
				return rt.FSFault{Err: er, Part: r.Fault.N(op.N + 1)}
			}
			if op.Op == "read" && r.Fault.Chance(1, 4) {
				return rt.FSFault{Part: 1 + r.Fault.N(op.N)}
			}
			return rt.FSFault{}
		}
	}
	if w.acceptFaults {
		w.setAcceptFaults(g)
	}
	for _, p := range w.peers {
		if !p.outgoing {
			p.dialIn()
		}
	}
	if coverage {
		w.sim.GoOn(w.sim.NewEnvHost("monitor", "10.255.0.2"), "leechmon", w.leechMonitor)
	}
	horizon := int64(2500 * sec)
	for _, p := range w.peers {
		horizon = max(horizon, 2500*sec+p.duration())
	}
	if len(outs) > 0 {
		w.outsDialed(outs)
	}
	if !w.waitDone(horizon+w.slack()) && !r.bad() {
		for _, p := range w.peers {
			if p.done {
				continue
			}
			t := "C03,C14"
			if p.live {
				t = w.tags("C02,C03")
			}
			p.fail(t, "the client neither served nor closed this connection within %.0fs", f(horizon))
			break
		}
		return
	}
	if w.checkAlive("") || r.bad() {
		return
	}
	fs.Inject = nil
	if d := w.burstEnd + 10*sec - w.sim.Now(); d > 0 {
		r.sleep(d)
	}
	for _, p := range w.waiters {
		if !p.aborted && !p.gotHS && p.conn != nil && !w.dead() && !w.sim.Overrun {
			p.fail("C22", "not accepted %.0fs after accepting became possible again", f(w.sim.Now()-w.burstEnd))
		}
	}
	// afterwards a fresh honest peer must get in and be served
	if focus != "C15" || g.Chance(1, 2) {
		w.probeServed(g)
	}
	if w.checkAlive("") || r.bad() {
		return
	}
	for _, p := range w.peers {
		p.finalChecks(coverage)
	}
	if r.bad() {
		return
	}
	if leakCheck {
		w.endAll()
		w.leakCheck()
		if !r.bad() {
			w.probeServed(g)
			w.checkAlive("")
		}
	}
	if focus == "C09" {
		w.rateCheck()
	}
}

// duration is how long the script takes by itself.
func (p *Peer) duration() int64 {
	d := p.delay + p.bounded
	for _, s := range p.script {
		switch s.kind {
		case sWait, sIdle, sSilence:
			d += s.d
		case sSend:
			d += gapSum(s.cuts)
		case sAwait:
			d += p.boundAll() + 100*sec
		}
	}
	return d
}

// outsDialed: every peer named by the tracker is dialed where it said, and nobody else.
func (w *World) outsDialed(outs []*Peer) {
	r := w.r
	want := map[string]bool{}
	for _, p := range outs {
		want[fmt.Sprintf("%s:%d", p.host.IP, p.outPort)] = true
	}
	missing := func() string {
		got := map[string]bool{}
		for _, d := range w.dials {
			got[d] = true
		}
		for _, p := range outs {
			if a := fmt.Sprintf("%s:%d", p.host.IP, p.outPort); !got[a] {
				return a
			}
		}
		return ""
	}
	r.until(30*sec+w.slack(), 10*ms, func() bool { return missing() == "" || r.bad() || w.dead() || w.sim.Overrun })
	if r.bad() || w.dead() || w.sim.Overrun {
		return
	}
	if m := missing(); m != "" {
		r.Fail("C19,C17", "peer %s named by the tracker was not contacted within 30s", m)
	}
	for _, d := range w.dials {
		if !want[d] {
			r.Fail("C19,C17", "the client dialed %s, which the tracker did not name", d)
		}
	}
}

// trackerDict is a tracker answering with a list of dictionaries.
func (w *World) trackerDict(addrs []peerAddr) trackerPlan {
	return func(h *rt.Host, req *http.Request) rt.HTTPPlan {
		w.noteAnnounce(req)
		l := []any{}
		for _, a := range addrs {
			l = append(l, bdict{"ip": a.ip, "port": a.port, "peer id": a.id})
		}
		body := benc(bdict{"interval": 1800, "complete": 1, "incomplete": len(addrs), "peers": l})
		return rt.HTTPPlan{Delay: 20 * ms, Body: []byte(body)}
	}
}

// probeServed lets a fresh honest peer in and asks for a few blocks.
func (w *World) probeServed(g *rt.Stream) {
	r := w.r
	// progress is asked for once stalls have stopped
	stalls := w.sim.StallNum
	w.sim.StallNum = 0
	defer func() { w.sim.StallNum = stalls }()
	if stalls > 0 {
		r.sleep(2*w.sim.StallMax + sec)
	}
	for k := 0; k < 8; k++ {
		p := w.newPeer("probe")
		o := honestOpt{batches: 1, perBatch: 3, await: 10, piggy: false}
		w.genHonest(g, p, o)
		p.isProbe = true
		p.dialIn()
		lim := p.boundAll() + 30*sec + w.slack()
		ok := r.until(lim, 50*ms, func() bool {
			return r.bad() || w.dead() || w.sim.Overrun || p.aborted ||
				p.done && (p.gotHS && p.rxTotal > 68 || p.clientClosed())
		})
		if r.bad() || w.dead() || w.sim.Overrun {
			return
		}
		if p.aborted { // by an injected accept failure
			continue
		}
		switch {
		case p.conn == nil:
			r.Fail(w.tags("C04"), "a new honest peer was not accepted within %.0fs", f(lim))
		case !p.gotHS:
			r.Fail(w.tags("C04"), "a new honest peer got no handshake within %.0fs", f(lim))
		case !ok:
			r.Fail(w.tags("C02,C04"), "a new honest peer was not served within %.0fs", f(lim))
		}
		return
	}
}

// boundAll is a bound for the whole script.
func (p *Peer) boundAll() int64 {
	b := 60 * sec
	if p.w.upLim > 0 {
		b += int64(p.w.totalReq+p.w.cliReqs+40) * sec * 2
	}
	if l := p.w.host.FS.LatMax; l > 0 {
		b += 100 * 6 * l
	}
	return b
}

// setAcceptFaults makes accepts fail in bursts.
func (w *World) setAcceptFaults(g *rt.Stream) {
	errs := []error{syscall.ECONNABORTED, syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM, syscall.EINTR, syscall.EPROTO, syscall.EAGAIN, syscall.EPERM}
	type win struct {
		from, to int64
		err      error
		n        int
	}
	var ws []win
	t := w.sim.Now()
	for k := g.Range(1, 4); k > 0; k-- {
		from := t + int64(g.N(6000))*ms
		d := int64(1+g.N(30)) * 100 * ms
		ws = append(ws, win{from, from + d, errs[g.N(len(errs))], 1 + g.N(4)})
	}
	f := w.r.Fault
	if w.longBurst > 0 { // starts when all have connected
		from := t + 10*sec
		w.burstEnd = from + w.longBurst
		w.host.AcceptFault = func() error {
			if now := w.sim.Now(); now >= from && now < w.burstEnd {
				return w.acceptErr(ws[0].err)
			}
			return nil
		}
		return
	}
	mode := g.N(2)
	w.host.AcceptFault = func() error {
		if mode == 0 {
			now := w.sim.Now()
			for i := range ws {
				if now >= ws[i].from && now < ws[i].to {
					return w.acceptErr(ws[i].err)
				}
			}
			return nil
		}
		if f.Chance(1, 3) {
			return w.acceptErr(ws[f.N(len(ws))].err)
		}
		return nil
	}
}

func (w *World) acceptErr(e error) error {
	if e == syscall.ECONNABORTED || e == syscall.EPROTO { // that connection is gone
		l := w.host.Listener(w.port)
		c := l.BacklogHead()
		for _, p := range w.peers {
			if p.cl == c {
				p.live = false
				p.aborted = true
				p.ended = true
			}
		}
		l.DropBacklogHead()
	}
	return e
}

// genLeech writes the script of a peer that has pieces the client may want.
func (w *World) genLeech(g *rt.Stream, p *Peer, outgoing bool) {
	p.honest, p.live, p.goodHS = true, true, true
	p.outgoing = outgoing
	p.reply = g.Chance(1, 2)
	hs := w.goodHandshake(p, g)
	h := make([]bool, w.tor.NP)
	frac := []int{100, 100, 50, 20}[g.N(4)]
	any := false
	for i := range h {
		h[i] = g.N(100) < frac
		any = any || h[i]
	}
	if !any {
		h[g.N(len(h))] = true
	}
	var b []byte
	var late []int
	switch g.N(3) {
	case 0: // bitfield
		b = msg(mBitfield, bitfieldBytes(h))
	case 1: // part by bitfield, part by have
		bf := make([]bool, len(h))
		for i, x := range h {
			if x && g.Chance(1, 2) {
				bf[i] = true
			} else if x {
				late = append(late, i)
			}
		}
		b = msg(mBitfield, bitfieldBytes(bf))
	case 2: // have only
		for i, x := range h {
			if x {
				late = append(late, i)
			}
		}
	}
	if len(late) > 40 {
		late = late[:40]
	}
	cs := genCuts(g, 68, 400*ms)
	if outgoing {
		cs = genCuts(g, 68, 200*ms)
	}
	if g.Chance(1, 2) { // together with the handshake
		if cs == nil || g.Chance(1, 2) {
			cs = nil
		}
		p.script = append(p.script, send(append(hs, b...), cs))
	} else {
		p.script = append(p.script, send(hs, cs))
		if len(b) > 0 {
			p.script = append(p.script, send(b, genCuts(g, len(b), 300*ms)))
		}
	}
	if g.Chance(1, 2) {
		p.script = append(p.script, send(msg(mUnchoke), nil))
	}
	var hb []byte
	for _, i := range late {
		hb = append(hb, msg(mHave, u32s(uint32(i)))...)
		if g.Chance(1, 5) {
			hb = append(hb, msg(mHave, u32s(uint32(i)))...)
		}
		if g.Chance(1, 3) {
			p.script = append(p.script, send(hb, genCuts(g, len(hb), 300*ms)))
			hb = nil
			if g.Chance(1, 3) {
				p.script = append(p.script, step{kind: sWait, d: int64(g.N(3000)) * ms})
			}
		}
	}
	if len(hb) > 0 {
		p.script = append(p.script, send(hb, genCuts(g, len(hb), 300*ms)))
	}
	if hv := w.haveList(); len(hv) > 0 && g.Chance(1, 2) { // it downloads too
		for k := g.Range(1, 4); k > 0; k-- {
			p.script = append(p.script, send(genReq(g, w, hv).enc(), nil))
		}
		p.script = append(p.script, step{kind: sAwait})
	}
}

// leechEnd: the peer stays for long enough that everything it should be asked is asked.
func (w *World) leechEnd(g *rt.Stream, p *Peer) {
	if g.Chance(1, 3) {
		p.script = append(p.script, step{kind: sWait, d: int64(g.N(20000)) * ms})
		w.genDeath(g, p)
		return
	}
	p.script = append(p.script, step{kind: sIdle, d: int64(g.Range(20, 60)) * sec})
}

// genDeath ends a connection in one of many ways.
func (w *World) genDeath(g *rt.Stream, p *Peer) {
	if g.Chance(1, 2) {
		p.script = append(p.script, step{kind: sWait, d: int64(g.N(4000)) * ms})
	}
	add := func(s ...step) { p.script = append(p.script, s...) }
	switch g.N(11) {
	case 0:
		add(step{kind: sClose})
	case 1:
		add(step{kind: sReset})
	case 2:
		add(step{kind: sHalfClose})
		p.bounded, p.why = 300*sec, "C14"
	case 3:
		add(step{kind: sVanish})
	case 4: // silence
		add(step{kind: sUnlive}, step{kind: sSilence, d: 140 * sec})
		p.bounded, p.why = 60*sec, "C14,C15"
	case 5: // protocol error
		p.honest = false
		add(step{kind: sUnlive}, send(msg(mRequest, u32s(0xffffffff, 0, 1)), nil), step{kind: sWait, d: 2 * sec}, step{kind: sClose})
	case 6: // protocol error and reset at once
		p.honest = false
		add(step{kind: sUnlive}, send(msg(mBitfield, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9}), nil), step{kind: sReset})
	case 7: // the client's write fails half way
		add(step{kind: sCutIn, d: int64(1 + g.N(40))}, step{kind: sIdle, d: 70 * sec}, step{kind: sClose})
	case 8: // the client's next write fails
		add(step{kind: sWFail, d: int64(g.N(6))}, step{kind: sIdle, d: 70 * sec}, step{kind: sClose})
	case 9: // several at once
		p.honest = false
		hv := w.haveList()
		var b []byte
		for k := g.Range(0, 10); k > 0 && len(hv) > 0; k-- {
			b = append(b, genReq(g, w, hv).enc()...)
		}
		b = append(b, msg(mHave, u32s(0xfffffff0))...)
		add(step{kind: sUnlive}, step{kind: sWFail, d: int64(g.N(6))}, send(b, nil), step{kind: sHalfClose})
		if g.Chance(1, 2) {
			add(step{kind: sReset})
		} else {
			p.bounded, p.why = 300*sec, "C14"
		}
	case 10: // stops reading with answers pending
		p.honest = false
		hv := w.haveList()
		var b []byte
		for k := g.Range(5, 60); k > 0 && len(hv) > 0; k-- {
			b = append(b, genReq(g, w, hv).enc()...)
		}
		add(step{kind: sUnlive}, step{kind: sStopRead}, send(b, nil))
		if g.Chance(1, 2) {
			add(step{kind: sReset})
		} else {
			p.bounded, p.why = 420*sec, "C14,C16"
		}
	}
	if p.bounded == 0 && len(p.script) > 0 {
		return
	}
	p.dies = true
}

// genOutgoing writes the script of a peer that the client dials.
func (w *World) genOutgoing(g *rt.Stream, p *Peer) {
	switch g.N(12) {
	case 0:
		p.fate = rt.DialRefused
	case 1:
		p.fate = rt.DialTimeout_
	case 2:
		p.fate = rt.DialResetAtOnce
	case 3: // never answers
		p.bounded, p.why = 150*sec, "C17"
		p.goodHS = false
	case 4: // wrong handshake
		hs := w.goodHandshake(p, g)
		k := g.N(48)
		if k >= 20 && k < 28 {
			k = 28
		}
		hs[k] ^= 1 << g.N(8)
		if g.Chance(1, 2) {
			hs = append(hs, msg(mBitfield, bitfieldBytes(make([]bool, w.tor.NP)))...)
		}
		p.bounded, p.why = 150*sec, "C17"
		p.script = append(p.script, send(hs, genCuts(g, len(hs), 400*ms)))
	case 5: // truncated
		hs := w.goodHandshake(p, g)
		p.bounded, p.why = 150*sec, "C17"
		p.script = append(p.script, send(hs[:g.N(68)], nil))
		if g.Chance(1, 2) {
			p.script = append(p.script, step{kind: []stepKind{sClose, sReset, sHalfClose}[g.N(3)]})
		}
	case 6: // garbage
		b := make([]byte, g.Range(1, 300))
		fill(b, g.U64())
		if b[0] == 19 {
			b[0] = 0
		}
		p.bounded, p.why = 150*sec, "C17"
		p.script = append(p.script, send(b, nil))
	default: // a good one
		w.genLeech(g, p, true)
		if g.Chance(1, 3) {
			p.script = append(p.script, step{kind: sWait, d: int64(g.N(3000)) * ms}, step{kind: sReset})
		} else {
			p.script = append(p.script, step{kind: sIdle, d: int64(g.Range(20, 80)) * sec})
		}
	}
}

// genQuiet: connections on which little or nothing happens (C15).
func (w *World) genQuiet(g *rt.Stream, mixed func(int, func(*rt.Stream, *Peer)), out func(int, func(*rt.Stream, *Peer))) {
	one := func(g *rt.Stream, p *Peer) {
		p.quiet, p.honest, p.live, p.goodHS = true, true, true, true
		if p.outgoing && g.Chance(1, 2) {
			w.genLeech(g, p, true)
		} else {
			p.script = append(p.script, send(w.goodHandshake(p, g), nil))
		}
		hv := w.haveList()
		for k := g.N(12); k > 0; k-- {
			var d int64
			switch g.N(4) {
			case 0:
				d = int64(g.Range(1, 109)) * sec
			case 1:
				d = 109*sec + int64(g.N(900))*ms
			case 2:
				d = int64(g.Range(55, 65)) * sec
			case 3:
				d = int64(g.Range(100, 109)) * sec
			}
			p.script = append(p.script, step{kind: sSilence, d: d})
			switch g.N(4) {
			case 0, 1:
				p.script = append(p.script, send(keepAlive, nil))
			case 2: // one byte of a message at a time
				b := keepAlive
				if len(hv) > 0 && g.Chance(1, 2) {
					b = genReq(g, w, hv).enc()
				}
				var cs []cut
				for i := 0; i < min(len(b)-1, 3); i++ {
					d := int64(g.Range(1, 109)) * sec
					cs = append(cs, cut{1, d})
				}
				p.script = append(p.script, send(b, cs))
			case 3:
				if len(hv) > 0 {
					p.script = append(p.script, send(genReq(g, w, hv).enc(), nil), step{kind: sAwait})
				} else {
					p.script = append(p.script, send(msg(mInterested), nil))
				}
			}
		}
		if len(hv) > 0 && g.Chance(1, 6) { // neither reads nor sends any more
			p.honest = false
			p.script = append(p.script, step{kind: sUnlive}, step{kind: sStopRead})
			var b []byte
			for k := g.Range(1, 300); k > 0; k-- {
				b = append(b, genReq(g, w, hv).enc()...)
			}
			p.script = append(p.script, send(b, nil))
			p.quiet = false
			p.bounded, p.why = 420*sec, "C15,C16"
			return
		}
		switch g.N(5) {
		case 0, 1, 2: // silent from here on
			p.silent = true
			p.script = append(p.script, step{kind: sSilence, d: 109 * sec}, step{kind: sUnlive})
			p.bounded, p.why = 23*sec, "C15"
		case 3: // in the middle of a message
			p.silent = true
			b := msg(mInterested)
			p.script = append(p.script, send(b[:g.Range(1, 4)], nil), step{kind: sSilence, d: 109 * sec}, step{kind: sUnlive})
			p.bounded, p.why = 23*sec, "C15"
		case 4:
			p.script = append(p.script, send(keepAlive, nil), step{kind: sWait, d: sec})
		}
	}
	mixed(g.Range(1, 4), one)
	out(g.N(3), one)
}

// finalChecks looks at one connection after its script is over.
func (p *Peer) finalChecks(coverage bool) {
	w := p.w
	if p.conn == nil || w.r.bad() {
		return
	}
	p.checkServed()
	p.timingCheck()
	if d := p.gotHSAt - max(p.hsSentAt, p.cl.OpenedAt); p.live && !p.outgoing && p.gotHS && p.hsSent && d > 10*sec+2*p.conn.OutCfg().LatMax+w.slack() {
		p.fail("C16,C04", "a correct handshake was answered only after %.1fs", f(d))
	}
	if p.live && !p.outgoing && !p.clientClosed() && p.hsInTime() && w.sim.Now()-p.hsSentAt > 20*sec+w.slack() {
		if !p.gotHS {
			p.fail(w.tags("C04"), "no handshake in answer to a correct one")
		} else if p.frames == 0 && len(p.rx) == 0 {
			p.fail("C04", "no bitfield after the handshake")
		}
	}
	if p.connected() && p.live && w.upLim <= 0 {
		for _, i := range p.askOrder {
			a := p.asked[i]
			for k, x := range a {
				if !x && w.sim.Now()-p.askedAt[i] > 20*sec+w.slack() {
					p.fail("C18", "the requests sent for piece %d do not cover its byte %d", i, k)
					return
				}
			}
		}
	}
}

// timingCheck: the client's own messages keep a quiet connection alive, and a
// silent peer is cut off neither early nor late (C15).
func (p *Peer) timingCheck() {
	w := p.w
	if w.r.bad() || p.conn == nil || !p.gotHS || !p.hsSent || p.aborted {
		return
	}
	end := w.sim.Now()
	if p.cl.IsClosed() {
		end = p.cl.ClosedAt
	}
	if p.endedAt > 0 && p.endedAt < end {
		end = p.endedAt
	}
	last := max(p.gotHSAt, p.hsSentAt)
	if p.quiet {
		for _, t := range append(p.txAt, end) {
			if t-last > 120*sec+500*ms+w.slack() && t <= end {
				p.fail("C15", "client sent nothing for %.1fs (from %.1fs to %.1fs) on an established connection", f(t-last), f(last), f(t))
				return
			}
			if t > last {
				last = t
			}
		}
	}
	if p.silent && p.cl.IsClosed() && !p.ended {
		lat := p.conn.OutCfg().LatMax
		d := p.cl.ClosedAt - p.lastSend
		if d < 110*sec {
			p.fail("C15", "silent peer disconnected %.1fs after its last data", f(d))
		} else if d > 130*sec+lat+w.slack() {
			p.fail("C15", "silent peer disconnected only %.1fs after its last data", f(d))
		}
	}
}

// leechMonitor: a connected peer from which nothing is being fetched although it
// announced something nobody else is fetching must be sent requests.
func (w *World) leechMonitor() {
	if w.upLim > 0 {
		return
	}
	for {
		w.r.sleep(sec)
		if w.r.bad() || w.dead() || w.over {
			return
		}
		now := w.sim.Now()
		grace := 15*sec + w.slack()
		for _, p := range w.peers {
			if !p.live || !p.connected() || len(p.asked) > 0 {
				continue
			}
			if now-max(p.gotHSAt, p.hsSentAt) < grace {
				continue
			}
			for _, i := range sortedKeys(p.announced) {
				if w.have[i] || now-p.annAt[i] < grace || now-w.freedAt(i) < 5*sec+grace {
					continue
				}
				t := "C18,C14"
				if p.outgoing {
					t += ",C17"
				}
				p.fail(t, "nothing is requested from this peer although it announced piece %d %.0fs ago, which is missing and not being fetched from anybody", i, f(now-p.annAt[i]))
				return
			}
		}
	}
}

// freedAt is when piece i was last (possibly) reserved for another peer.
func (w *World) freedAt(i int) int64 {
	t := int64(-1000 * sec)
	held := func(o *Peer) {
		if o.cl.IsClosed() {
			t = max(t, o.cl.ClosedAt)
		} else { // the client still holds this connection, dead or not
			t = w.sim.Now()
		}
	}
	for _, o := range w.owner[i] {
		held(o)
	}
	for _, o := range w.peers { // it may be about to request it from these
		if o.conn != nil && o.announced[i] && (o.readMode != 0 || o.ended || !o.live) {
			held(o)
		}
	}
	return t
}

// rateCheck: uploads stayed within the limit (C09).
func (w *World) rateCheck() {
	var maxN, n int64
	lo := 0
	for _, u := range w.ups {
		maxN = max(maxN, u.n)
	}
	for hi, u := range w.ups {
		n += u.n
		for w.ups[hi].at-w.ups[lo].at > sec {
			n -= w.ups[lo].n
			lo++
		}
		if n > 3*(w.upLim+maxN) {
			w.r.Fail("C09", "%d bytes of blocks and requests sent within one second ending at %.3fs, with a limit of %d/s", n, f(u.at), w.upLim)
			return
		}
	}
	T := int64(0)
	if len(w.ups) > 0 {
		T = (w.ups[len(w.ups)-1].at - w.ups[0].at) / sec
		var tot int64
		for _, u := range w.ups {
			tot += u.n
		}
		if tot > (T+3)*(w.upLim+maxN) {
			w.r.Fail("C09", "%d bytes uploaded in %ds with a limit of %d/s", tot, T, w.upLim)
		}
	}
}

var _ = net.ParseIP
var _ = binary.BigEndian
