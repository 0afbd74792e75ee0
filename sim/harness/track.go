package main

import (
	"fmt"
	"syscall"
)

// The "track" scenarios: the whole client downloads from peers that join,
// announce pieces and leave one after the other, so that a simple model knows at
// every moment who holds what and what is being fetched from whom, and can judge
// each choice of a piece from what the client sends.

func init() {
	for _, p := range []string{"C11", "C12", "C14", "C18"} {
		p := p
		scenarios["track:"+p] = func(r *Run) { r.track(p) }
		plan(p, "track:"+p, 8)
	}
}

type tracker struct {
	w         *World
	members   []*Peer
	unsettled bool // peers are just leaving or in the middle of announcing
	pending   func() *Peer
}

type trackOp struct {
	kind  int   // 0 join, 1 have, 2 burst of haves, 3 leave, 4 wait, 5 join and leave at once
	set   []int // announced by bitfield
	haves []int
	who   int
	how   int
	n     int
	piggy bool
	noBf  bool
	cuts  []cut
	again []byte // one more bitfield before it leaves
}

func (r *Run) track(focus string) {
	g := r.Gen
	w := r.newWorld()
	for k := 0; k < 8; k++ {
		w.tor = genTor(g, 9000)
		if w.tor.NP >= 4 && (w.tor.NP >= 8 || g.Chance(1, 4)) {
			break
		}
	}
	np := w.tor.NP
	fs := w.host.FS
	w.tor.putAll(fs)
	lack := []int{100, 80, 50}[g.N(3)]
	for i := 0; i < np; i++ {
		if g.N(100) < lack {
			w.tor.flipDisk(fs, i*w.tor.PieceLen+g.N(w.tor.PLen(i)), byte(1+g.N(255)))
		}
	}
	w.have = w.tor.truth(fs)
	t := &tracker{w: w}
	w.onAsk = t.chosen

	subset := func(pct int) []int {
		var l []int
		for i := 0; i < np; i++ {
			if g.N(100) < pct {
				l = append(l, i)
			}
		}
		return l
	}
	some := func(n int) []int {
		var l []int
		for ; n > 0; n-- {
			l = append(l, g.N(np))
		}
		return l
	}
	var ops []trackOp
	how := func() int {
		return []int{0, 1, 2, 3, 5, 6, 7, 8, 13, 6, 2, 9, 10, 11, 12}[g.Weighted(4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 2, 2, 1, 1)]
	}
	for k := g.Range(2, 14); k > 0; k-- {
		var o trackOp
		switch g.Weighted(6, 3, 1, 5, 1, 3) {
		case 0, 5:
			o = trackOp{kind: 0, set: subset([]int{100, 70, 40, 10}[g.N(4)]), piggy: g.Chance(1, 2), cuts: genCuts(g, 68, 300*ms)}
		case 1:
			o = trackOp{kind: 1, haves: some(1), who: g.N(64)}
		case 2:
			o = trackOp{kind: 2, haves: some(g.Range(2, 30)), who: g.N(64)}
		case 3:
			o = trackOp{kind: 3, who: g.N(64), how: how(), n: g.N(40)}
			if g.Chance(1, 2) {
				o.haves = some(g.Range(1, 60))
			}
		case 4:
			o = trackOp{kind: 4, n: g.N(90)}
		}
		if o.kind == 3 && g.Chance(1, 5) {
			h := make([]bool, np)
			for _, i := range subset([]int{0, 0, 30, 100}[g.N(4)]) {
				h[i] = true
			}
			o.again = msg(mBitfield, bitfieldBytes(h))
		}
		if o.kind == 0 && g.Chance(1, 3) {
			o.kind = 5
			o.how, o.n = how(), g.N(40)
			if g.Chance(2, 3) {
				o.haves = some(g.Range(1, 60))
			}
			o.noBf = g.Chance(1, 3)
		}
		ops = append(ops, o)
	}
	var halves [][]int
	for k := g.Range(1, 5); k > 0; k-- {
		if g.Chance(1, 4) {
			halves = append(halves, subset(50))
			continue
		}
		x := g.N(np) // all but one, which is then the rarest
		for _, o := range ops {
			if (o.kind == 3 || o.kind == 5) && len(o.haves) > 0 && g.Chance(2, 3) {
				x = o.haves[g.N(len(o.haves))]
			}
		}
		var h []int
		for i := 0; i < np; i++ {
			if i != x {
				h = append(h, i)
			}
		}
		halves = append(halves, h)
	}
	lastHow := g.N(2)
	var probes []int
	for i, h := range w.have {
		if !h {
			probes = append(probes, i)
		}
	}
	for i := len(probes) - 1; i > 0; i-- {
		j := g.N(i + 1)
		probes[i], probes[j] = probes[j], probes[i]
	}
	if len(probes) > 6 {
		probes = probes[:6]
	}

	r.Sim.MaxSwitch = 3_000_000
	if !w.boot(w.trackerAnswer(nil)) {
		return
	}
	r.drawSched(false)

	stop := func() bool { return r.bad() || w.dead() || w.sim.Overrun }
	for _, o := range ops {
		if stop() {
			break
		}
		switch o.kind {
		case 0:
			t.join(o)
		case 1, 2:
			if len(t.members) == 0 {
				continue
			}
			p := t.members[o.who%len(t.members)]
			t.unsettled = len(o.haves) > 1
			var b []byte
			for _, i := range o.haves {
				b = append(b, msg(mHave, u32s(uint32(i)))...)
			}
			t.do(p, func() { p.send(b, nil) })
			t.settle()
		case 3:
			if len(t.members) == 0 {
				continue
			}
			t.leave(t.members[o.who%len(t.members)], o)
		case 4:
			r.sleep(int64(o.n) * sec)
		case 5:
			t.unsettled = true
			p := t.start(o, true)
			t.leave(p, o)
		}
	}
	if w.checkAlive("C11,C12,C14") || r.bad() {
		return
	}
	// everybody leaves; nothing may be left of them
	t.unsettled = true
	for _, p := range t.members {
		p := p
		t.do(p, func() {
			p.end()
			if lastHow == 0 {
				p.conn.Close()
			} else {
				p.conn.Abort()
			}
		})
	}
	t.members = nil
	w.leakCheck()
	if w.checkAlive("C11,C12,C14") || r.bad() {
		return
	}
	for _, h := range halves {
		var all []int
		for i := 0; i < np; i++ {
			all = append(all, i)
		}
		a := t.join(trackOp{set: h})
		b := t.join(trackOp{set: all})
		for _, p := range []*Peer{a, b} {
			if stop() {
				break
			}
			t.leave(p, trackOp{how: 0})
		}
	}
	for _, i := range probes {
		if stop() {
			break
		}
		p := t.join(trackOp{set: []int{i}})
		if p == nil || stop() {
			break
		}
		t.leave(p, trackOp{how: 1})
	}
	if w.checkAlive("C11,C12,C14") || r.bad() {
		return
	}
	for _, p := range w.peers {
		p.finalChecks(true)
	}
}

// do runs f in the peer's own task and waits for it.
func (t *tracker) do(p *Peer, f func()) {
	done := false
	p.cmds = append(p.cmds, func() { f(); done = true })
	t.w.r.until(60*sec, 20*ms, func() bool { return done || p.done || t.w.dead() || t.w.r.bad() })
}

// start connects a peer that announces o.set.
func (t *tracker) start(o trackOp, dying bool) *Peer {
	w := t.w
	p := w.newPeer("t")
	p.honest, p.live, p.goodHS = true, !dying, true
	h := make([]bool, w.tor.NP)
	for _, i := range o.set {
		h[i] = true
	}
	hs := mkHandshake(w.tor.InfoHash, p.id, 0)
	bf := msg(mBitfield, bitfieldBytes(h))
	if o.noBf {
		bf = nil
	}
	if dying {
		p.script = append(p.script, send(hs, o.cuts), step{kind: sCmd})
		p.dying = bf
	} else if o.piggy {
		p.script = append(p.script, send(append(hs, bf...), o.cuts), step{kind: sCmd})
	} else {
		p.script = append(p.script, send(hs, o.cuts), send(bf, nil), step{kind: sCmd})
	}
	p.dialIn()
	w.r.until(30*sec, 20*ms, func() bool {
		return p.gotHS && p.hsSent && p.atCmd || p.done || w.dead() || w.r.bad() || w.sim.Overrun
	})
	return p
}

// join connects a peer that stays.
func (t *tracker) join(o trackOp) *Peer {
	w := t.w
	t.unsettled = false
	p := t.startMember(o)
	if w.dead() || w.r.bad() || w.sim.Overrun {
		return p
	}
	if !p.gotHS {
		p.fail("C04", "no handshake in answer to a correct one within 30s")
		return p
	}
	t.settle()
	return p
}

func (t *tracker) startMember(o trackOp) *Peer {
	n := len(t.w.peers)
	t.pending = func() *Peer {
		if len(t.w.peers) > n {
			return t.w.peers[n]
		}
		return nil
	}
	p := t.start(o, false)
	t.pending = nil
	t.members = append(t.members, p)
	return p
}

func (t *tracker) all() []*Peer {
	m := t.members
	if t.pending != nil {
		if p := t.pending(); p != nil {
			m = append(append([]*Peer(nil), m...), p)
		}
	}
	return m
}

func (t *tracker) count(i int) int {
	n := 0
	for _, p := range t.all() {
		if p.announced[i] {
			n++
		}
	}
	return n
}

func (t *tracker) holder(i int) *Peer {
	for _, p := range t.all() {
		if p.asked[i] != nil {
			return p
		}
	}
	return nil
}

func (t *tracker) is(p *Peer) bool {
	for _, q := range t.all() {
		if p == q {
			return true
		}
	}
	return false
}

// choosable lists what could be fetched from p now.
func (t *tracker) choosable(p *Peer) []int {
	var l []int
	for i := 0; i < t.w.tor.NP; i++ {
		if p.announced[i] && !t.w.have[i] && t.holder(i) == nil {
			l = append(l, i)
		}
	}
	return l
}

// chosen: the client has just begun to request piece idx from p.
func (t *tracker) chosen(p *Peer, idx int) {
	if t.unsettled || !t.is(p) || !p.announced[idx] {
		return
	}
	c := min(t.count(idx), 63)
	for _, i := range t.choosable(p) {
		if n := min(t.count(i), 63); n < c {
			tag := "C12"
			gone := 0 // departed peers that announced i
			for _, q := range t.w.peers {
				if q.announced[i] && !t.is(q) {
					gone++
				}
			}
			if n+gone >= c && gone > 0 {
				tag = "C12,C14"
			}
			p.fail(tag, "client fetches piece %d, which %d connected peers have, from this peer although it could fetch piece %d, which %d have", idx, c, i, n)
			return
		}
	}
}

// settle waits until what was just sent has had its effect; whoever has nothing
// to do then must have nothing to offer.
func (t *tracker) settle() {
	w := t.w
	r := w.r
	st := func() bool { return r.bad() || w.dead() || w.sim.Overrun }
	lat := int64(0)
	for _, p := range t.members {
		if p.conn != nil {
			lat = max(lat, p.conn.OutCfg().LatMax)
		}
	}
	r.sleep(sec + 3*lat)
	var idle *Peer
	r.until(15*sec+w.slack(), 100*ms, func() bool {
		idle = nil
		for _, p := range t.members {
			if len(p.asked) == 0 && p.connected() && len(t.choosable(p)) > 0 {
				idle = p
			}
		}
		return idle == nil || st()
	})
	if st() {
		return
	}
	if idle != nil {
		tag := "C11,C18"
		if w.departed {
			tag += ",C14"
		}
		idle.fail(tag, "nothing is requested from this peer although it announced piece %d, which is missing and not being fetched from any connected peer", t.choosable(idle)[0])
		return
	}
	t.unsettled = false
}

// leave ends a connection in one of many ways, with announcements on the way.
func (t *tracker) leave(p *Peer, o trackOp) {
	w := t.w
	r := w.r
	if p.conn == nil {
		return
	}
	t.unsettled = true
	var m []*Peer
	for _, q := range t.members {
		if q != p {
			m = append(m, q)
		}
	}
	t.members = m
	b := p.dying
	for _, i := range o.haves {
		b = append(b, msg(mHave, u32s(uint32(i)))...)
	}
	b = append(b, o.again...)
	r.ev("%s leaves (%d, %d announcements)", p.name, o.how, len(o.haves))
	t.do(p, func() {
		p.checkServed()
		p.live = false
		w.departed = true
		gone := func() { p.ended, p.endedAt = true, w.sim.Now() }
		switch o.how {
		case 0:
			p.send(b, nil)
			gone()
			p.conn.Close()
		case 1:
			p.send(b, nil)
			gone()
			p.conn.Abort()
		case 2, 3, 4: // protocol error at the end
			p.honest = false
			b = append(b, msg(mHave, u32s(uint32(w.tor.NP+o.n)))...)
			p.send(b, nil)
		case 5:
			p.honest = false
			b = append(b, msg(mBitfield, make([]byte, (w.tor.NP+7)/8+1))...)
			p.send(b, nil)
		case 6, 7, 8: // the client's writes fail
			n := o.n % 6
			p.cl.WriteHook = func(m int) (int, error) {
				w.sim.Stats["fault.write_error"]++
				return min(n, m), syscall.EHOSTUNREACH
			}
			p.send(b, nil)
		case 9: // the link breaks
			p.noKA = true
			p.cl.CutAfter(int64(1 + o.n))
			p.send(b, nil)
		case 10:
			p.send(b, nil)
			p.conn.CloseWrite()
		case 11: // vanishes
			p.send(b, nil)
			gone()
			p.conn.BlackHole(true)
		case 12: // goes silent
			p.send(b, nil)
			p.noKA = true
		case 13: // absurd length
			p.honest = false
			b = append(b, 0xff, 0xff, 0xff, 0xff)
			p.send(b, nil)
		}
	})
	if !r.until(420*sec+w.slack(), 200*ms, func() bool { return p.cl.IsClosed() || r.bad() || w.dead() || w.sim.Overrun }) {
		p.fail("C14", "client did not close this connection within 420s after it ended (%s)", fmt.Sprint(o.how))
		return
	}
	p.ended = true
	r.sleep(5 * sec)
	t.settle()
}
