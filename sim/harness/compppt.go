//go:build !noppt

package main

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent"

	"vsim/rt"
)

func init() {
	plan("C11", "ppt:C11", 10)
	plan("C12", "ppt:C12", 10)
}

func init() {
	scenarios["ppt:C11"] = func(r *Run) { r.pptScenario("C11") }
	scenarios["ppt:C12"] = func(r *Run) { r.pptScenario("C12") }
}

// pstate is the reference model of the piece tracker.
type pstate struct {
	hold  [][]bool // peer, piece
	cnt   []int
	owner []int // piece -> peer it is assigned to, or -1
}

func newPState(np, n int) *pstate {
	s := &pstate{hold: make([][]bool, np), cnt: make([]int, n), owner: make([]int, n)}
	for i := range s.hold {
		s.hold[i] = make([]bool, n)
	}
	for i := range s.owner {
		s.owner[i] = -1
	}
	return s
}

func (s *pstate) clone() *pstate {
	c := &pstate{hold: make([][]bool, len(s.hold)), cnt: append([]int(nil), s.cnt...), owner: append([]int(nil), s.owner...)}
	copy(c.hold, s.hold) // rows are copied when changed
	return c
}

func (s *pstate) key() string {
	var b strings.Builder
	for _, h := range s.hold {
		b.Write(bitfieldBytes(h))
	}
	for _, o := range s.owner {
		b.WriteByte(byte(o))
	}
	return b.String()
}

type pop struct {
	kind     int // 0 bitfield, 1 have, 2 leave, 3 next
	peer     int
	idx      []int
	got      int
	ok       bool
	inv, ret int64
	done     bool
}

func (o *pop) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("peer %d announces bitfield %v", o.peer, o.idx)
	case 1:
		return fmt.Sprintf("peer %d announces %v", o.peer, o.idx)
	case 2:
		return fmt.Sprintf("peer %d leaves", o.peer)
	}
	if o.ok {
		return fmt.Sprintf("peer %d gets piece %d", o.peer, o.got)
	}
	return fmt.Sprintf("peer %d gets no piece", o.peer)
}

func class(n int) int { return min(n, 63) }

// apply performs o on the model; the second result says why it could not have happened
// (safe: an assignment that may not be made, or a wrong refusal; rare: not the rarest).
func (s *pstate) apply(o *pop, need []bool) (*pstate, string, string) {
	switch o.kind {
	case 0, 1:
		c := s.clone()
		row := append([]bool(nil), c.hold[o.peer]...)
		for _, i := range o.idx {
			if !row[i] {
				row[i] = true
				c.cnt[i]++
			}
		}
		c.hold[o.peer] = row
		return c, "", ""
	case 2:
		c := s.clone()
		for i, h := range c.hold[o.peer] {
			if h {
				c.cnt[i]--
			}
		}
		c.hold[o.peer] = make([]bool, len(c.cnt))
		for i, ow := range c.owner {
			if ow == o.peer {
				c.owner[i] = -1
			}
		}
		return c, "", ""
	}
	best, any := 1<<30, -1
	for i := range s.cnt {
		if s.hold[o.peer][i] && need[i] && s.owner[i] < 0 {
			any = i
			best = min(best, class(s.cnt[i]))
		}
	}
	if !o.ok {
		if any >= 0 {
			return nil, fmt.Sprintf("%v although piece %d is needed, announced by it and not assigned", o, any), ""
		}
		return s, "", ""
	}
	switch {
	case o.got < 0 || o.got >= len(s.cnt):
		return nil, fmt.Sprintf("%v, which does not exist", o), ""
	case !s.hold[o.peer][o.got]:
		return nil, fmt.Sprintf("%v, which it did not announce", o), ""
	case !need[o.got]:
		return nil, fmt.Sprintf("%v, which the client has", o), ""
	case s.owner[o.got] >= 0:
		return nil, fmt.Sprintf("%v, which is assigned to connected peer %d", o, s.owner[o.got]), ""
	}
	why := ""
	if class(s.cnt[o.got]) != best {
		why = fmt.Sprintf("%v, which has %d holders, although a piece with %d could be chosen", o, s.cnt[o.got], best)
	}
	c := s.clone()
	c.owner[o.got] = o.peer
	return c, "", why
}

// linear finds all model states after some order of the operations ops that agrees
// with their times and results, from any of the states from. rare: results must be
// the rarest pieces as well. A nil result with giveUp means it was too much work.
func linear(from []*pstate, ops []*pop, need []bool, rare bool) (out []*pstate, giveUp bool) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].ret < ops[j].ret })
	seen := map[string]bool{}
	final := map[string]*pstate{}
	work := 0
	var rec func(mask []byte, left int, s *pstate)
	rec = func(mask []byte, left int, s *pstate) {
		if work++; work > 30000 {
			giveUp = true
			return
		}
		k := string(mask) + s.key()
		if seen[k] {
			return
		}
		seen[k] = true
		if left == 0 {
			final[s.key()] = s
			return
		}
		first := int64(1 << 62) // an operation must come after all that ended before it began
		for i, o := range ops {
			if mask[i] == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if mask[i] != 0 || o.inv > first {
				continue
			}
			c, why, r := s.apply(o, need)
			if why != "" || rare && r != "" {
				continue
			}
			m := append([]byte(nil), mask...)
			m[i] = 1
			rec(m, left-1, c)
			if giveUp && len(final) > 0 {
				return
			}
		}
	}
	for _, s := range from {
		rec(make([]byte, len(ops)), len(ops), s)
	}
	var ks []string
	for k := range final {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, final[k])
	}
	if len(out) > 64 {
		out, giveUp = out[:64], true
	}
	return
}

func (r *Run) pptScenario(focus string) {
	g := r.Gen
	w := r.newWorld()
	n := g.Range(1, 8)
	np := g.Range(1, 6)
	tasks := g.Range(2, 4)
	phases := g.Range(2, 8)
	perTask := 3
	big := focus == "C12" && g.Chance(1, 2) || focus == "C11" && g.Chance(1, 12)
	if focus == "C12" {
		n = g.Range(1, 12)
		np = g.Range(2, 14)
	}
	if big {
		np = g.Range(55, 90)
	}
	// a torrent with n pieces
	t := &Tor{Name: "x", Announce: "http://tracker.sim/a", PieceLen: g.Range(1, 8), Single: true}
	t.Files = []TFile{{Len: n * t.PieceLen}}
	t.finish(1)
	w.tor = t
	fs := w.host.FS
	fs.Put("/t.torrent", t.Raw)
	r.drawSched(false)
	r.Sim.MaxSwitch = 3_000_000

	need := make([]bool, n)
	for i := range need {
		need[i] = g.Chance(3, 4)
	}
	twins := g.Chance(1, 4) // several connections with the same peer
	states := []*pstate{newPState(np, n)}
	clk := int64(0)
	finished := false
	var hist []string
	gaveUp := false

	check := func(ops []*pop) {
		var rec []*pop
		for _, o := range ops {
			if o.done {
				rec = append(rec, o)
			}
		}
		if len(rec) == 0 || r.bad() {
			return
		}
		if gaveUp {
			return
		}
		r.Count["ppt_ops"] += int64(len(rec))
		out, gu := linear(states, rec, need, true)
		if len(out) == 0 && !gu {
			// which guarantee is it?
			prop, why := "C12", "no order of the operations makes every chosen piece a rarest one"
			if o2, gu2 := linear(states, rec, need, false); len(o2) == 0 && !gu2 {
				prop, why = "C11", "no order of the operations explains the results"
			}
			if len(rec) == 1 && len(states) == 1 {
				_, a, b := states[0].apply(rec[0], need)
				if a != "" || b != "" {
					why = a + b
				}
			} else {
				for _, o := range rec {
					why += fmt.Sprintf("; [%d,%d] %v", o.inv, o.ret, o)
				}
			}
			for _, h := range hist {
				r.Notes = append(r.Notes, h)
			}
			if prop == "C11" { // then the piece was not among those that could be chosen either
				prop = "C11,C12"
			}
			r.Fail(prop, "%s (needed: %v)", why, need)
			return
		}
		for _, o := range rec {
			hist = append(hist, o.String())
		}
		if len(hist) > 60 {
			hist = hist[len(hist)-60:]
		}
		if gu {
			gaveUp = true
			r.Count["ppt_inconclusive"]++
			return
		}
		states = out
	}

	body := func() {
		tor, e := torrent.FromTorrentFile("/t.torrent", dataDir)
		if e != nil {
			r.Fail("C11", "cannot open the torrent: %v", e)
			return
		}
		ours := bf.NewBitfield(int64(n))
		for i := range need {
			ours.Set(int64(i), !need[i])
		}
		sw := &swarm.Swarm{Tor: tor, Bf: ours}
		ppt := swarm.NewPeerPieceTracker(uint32(n), ours)
		phs := make([]*swarm.PeerHandler, np)
		for k := range phs {
			id, port := fmt.Sprintf("-XX0000-%012d", k), uint16(7000+k)
			if twins {
				id, port = fmt.Sprintf("-XX0000-%012d", k%2), uint16(7000+k%2)
			}
			phs[k] = swarm.NewPeerHandler(peer.MakePeer(id, net.IPv4(10, 1, 0, 1), port), sw, nil)
		}
		do := func(o *pop) {
			clk++
			o.inv = clk
			ph := phs[o.peer]
			switch o.kind {
			case 0:
				b := bf.NewBitfield(int64(n))
				for _, i := range o.idx {
					b.Set(int64(i), true)
				}
				ppt.RegisterBF(ph, b)
			case 1:
				us := []uint32{}
				for _, i := range o.idx {
					us = append(us, uint32(i))
				}
				ppt.Register(ph, us...)
			case 2:
				ppt.Unregister(ph)
			case 3:
				got, ok := ppt.NextPiece(ph)
				o.got, o.ok = int(got), ok
			}
			clk++
			o.ret = clk
			o.done = true
			r.ev("%v", o)
		}
		some := func(tg *rt.Stream) []int {
			var x []int
			switch tg.N(4) {
			case 0:
				x = []int{tg.N(n)}
			case 1:
				for i := 0; i < n; i++ {
					x = append(x, i)
				}
			default:
				for i := 0; i < n; i++ {
					if tg.Chance(1, 2) {
						x = append(x, i)
					}
				}
			}
			return x
		}
		gen := func(tg *rt.Stream, pk int, ws ...int) *pop {
			o := &pop{kind: tg.Weighted(ws...), peer: pk}
			switch o.kind {
			case 0:
				o.idx = some(tg)
			case 1:
				o.idx = []int{tg.N(n)}
				if tg.Chance(1, 4) {
					o.idx = append(o.idx, tg.N(n))
				}
			}
			return o
		}
		seqOp := func(o *pop) {
			do(o)
			check([]*pop{o})
		}
		if big { // bring many holders in, one at a time
			for k := 0; k < np && !r.bad(); k++ {
				o := &pop{kind: 0, peer: k, idx: some(g)}
				if g.Chance(2, 3) {
					o.idx = nil
					for i := 0; i < n; i++ {
						o.idx = append(o.idx, i)
					}
				}
				seqOp(o)
				if g.Chance(1, 10) {
					seqOp(&pop{kind: 3, peer: g.N(k + 1)})
				}
			}
		}
		for ph := 0; ph < phases && !r.bad(); ph++ {
			if focus == "C12" && g.Chance(2, 3) || g.Chance(1, 5) { // one at a time
				m := g.Range(3, 25)
				if big {
					m = g.Range(10, 60)
				}
				leave := g.Range(1, 6)
				for j := 0; j < m && !r.bad(); j++ {
					seqOp(gen(g, g.N(np), 2, 4, leave, 5))
				}
			} else {
				left := 0
				var ops []*pop
				leave := g.N(4)
				for k := 0; k < tasks; k++ {
					tg := rt.NewStream("task", g.U64())
					m := g.Range(1, perTask)
					left++
					mine := -1
					if g.Chance(1, 2) {
						mine = g.N(np)
					}
					rt.Go(fmt.Sprintf("task%d", k), func() {
						for j := 0; j < m && !r.bad(); j++ {
							pk := mine
							if pk < 0 {
								pk = tg.N(np)
							}
							o := gen(tg, pk, 2, 3, leave, 7)
							ops = append(ops, o)
							do(o)
							if tg.Chance(1, 3) {
								rt.Gosched()
							}
						}
						left--
					})
				}
				for left > 0 && !r.bad() {
					rt.TimeSleep(rt.Dur(100 * us))
				}
				r.Count["ppt_phases"]++
				check(ops)
			}
			// a piece was downloaded
			if g.Chance(1, 3) && !r.bad() {
				i := g.N(n)
				need[i] = false
				ours.Set(int64(i), true)
				hist = append(hist, fmt.Sprintf("the client has piece %d now", i))
			}
		}
		// everything that can still be chosen is, in the right order
		for j := 0; j < n+2 && !r.bad(); j++ {
			seqOp(&pop{kind: 3, peer: g.N(np)})
		}
		// and when all have left and come back, so is everything
		if g.Chance(1, 2) && !r.bad() {
			for k := 0; k < np && !r.bad(); k++ {
				seqOp(&pop{kind: 2, peer: k})
			}
			p := g.N(np)
			all := &pop{kind: 0, peer: p}
			for i := 0; i < n; i++ {
				all.idx = append(all.idx, i)
			}
			seqOp(all)
			for j := 0; j < n+1 && !r.bad(); j++ {
				seqOp(&pop{kind: 3, peer: p})
			}
		}
		finished = true
	}
	if !w.comp(compLimit, body, func() bool { return finished || r.bad() }) && !w.dead() && !r.bad() {
		w.compHung("C11,C12", "operations of the piece tracker never ended")
	}
	w.compDead("C11,C12")
	if r.Sim.Overrun && !r.bad() {
		r.Fail("C11,C12", "operations of the piece tracker never ended")
	}
}
