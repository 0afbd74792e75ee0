package main

import (
	"encoding/binary"
	"fmt"

	"vsim/rt"
)

// Script generators. Everything is drawn from the "gen" stream before the
// client starts, so that a peer's behaviour does not depend on the schedule.

// genCuts decides how n bytes are cut into segments; total delay stays below maxGap.
func genCuts(g *rt.Stream, n int, maxGap int64) []cut {
	if n <= 1 {
		return nil
	}
	var cs []cut
	gap := func(k int) int64 {
		if maxGap <= 0 {
			return 0
		}
		switch g.N(4) {
		case 0:
			return 0
		case 1:
			return int64(g.N(2000)) * us
		default:
			return int64(g.N(int(maxGap/int64(k+1)/ms)+1)) * ms
		}
	}
	switch g.N(6) {
	case 0:
		return nil
	case 1: // one cut
		return []cut{{1 + g.N(n-1), gap(1)}}
	case 2: // a few cuts
		k := g.Range(2, 6)
		for i := 0; i < k; i++ {
			cs = append(cs, cut{1 + g.N(n), gap(k)})
		}
	case 3: // bytes one by one for a while
		k := min(n-1, g.Range(1, 40))
		w := int64(0)
		if maxGap > 0 && g.Chance(1, 2) {
			w = int64(g.N(int(maxGap/int64(k)/us)+1)) * us
			if w > 3*ms {
				w = 3 * ms
			}
		}
		for i := 0; i < k; i++ {
			cs = append(cs, cut{1, w})
		}
	case 4: // small regular segments
		sz := 1 + g.N(20)
		k := min(60, n/sz)
		for i := 0; i < k; i++ {
			cs = append(cs, cut{sz, 0})
		}
	case 5: // cut inside the first message's length prefix
		cs = append(cs, cut{1 + g.N(min(n, 4)), gap(2)}, cut{1 + g.N(4), gap(2)})
	}
	return cs
}

// gapSum is the total delay in a cut list.
func gapSum(cs []cut) int64 {
	var t int64
	for _, c := range cs {
		t += c.gap
	}
	return t
}

func send(b []byte, cs []cut) step { return step{kind: sSend, data: b, cuts: cs} }

// genReq draws a valid block request for a piece the client has.
func genReq(g *rt.Stream, w *World, hv []int) breq {
	i := hv[g.N(len(hv))]
	pl := w.tor.PLen(i)
	maxn := min(pl, 16384)
	var b, n int
	switch g.N(6) {
	case 0, 1: // as clients do: aligned 16 KiB blocks
		nb := (pl + 16383) / 16384
		b = g.N(nb) * 16384
		n = min(16384, pl-b)
	case 2: // any range
		n = 1 + g.N(maxn)
		b = g.N(pl - n + 1)
	case 3: // at the end
		n = 1 + g.N(maxn)
		b = pl - n
	case 4: // one byte
		n = 1
		b = g.N(pl)
	case 5: // last piece
		if hv[len(hv)-1] == w.tor.NP-1 {
			i = w.tor.NP - 1
			pl = w.tor.PLen(i)
			maxn = min(pl, 16384)
		}
		n = maxn
		b = pl - n
	}
	if pl > 16384 && g.Chance(1, 10) { // longer than usual
		n = g.Range(16385, pl)
		b = g.N(pl - n + 1)
	}
	return breq{uint32(i), uint32(b), uint32(n)}
}

func (q breq) enc() []byte { return msg(mRequest, u32s(q.idx, q.begin, q.n)) }

// genNoise draws a well-formed message that needs no answer.
func genNoise(g *rt.Stream, w *World, used map[breq]bool) []byte {
	switch g.N(10) {
	case 0, 1:
		return keepAlive
	case 2:
		return msg(mChoke)
	case 3:
		return msg(mUnchoke)
	case 4:
		return msg(mInterested)
	case 5:
		return msg(mNotInterested)
	case 6:
		return msg(mHave, u32s(uint32(g.N(w.tor.NP))))
	case 7: // cancel of a block that is never requested
		for k := 0; k < 20; k++ {
			i := g.N(w.tor.NP)
			q := breq{uint32(i), uint32(g.N(w.tor.PLen(i))), uint32(1 + g.N(w.tor.PLen(i)))}
			if !used[q] {
				return msg(mCancel, u32s(q.idx, q.begin, q.n))
			}
		}
		return keepAlive
	case 8: // other types
		n := 0
		switch g.N(4) {
		case 1:
			n = g.N(20)
		case 2:
			n = g.N(3000)
		case 3:
			n = g.N(40000)
		}
		b := make([]byte, n)
		if g.Chance(1, 2) {
			fill(b, g.U64())
		} else if n > 8 { // looks like messages inside
			copy(b, msg(mRequest, u32s(0, 0, 1)))
		}
		return msg(byte(g.Range(9, 255)), b)
	default: // a block nobody asked for
		i := g.N(w.tor.NP)
		n := min(w.tor.PLen(i), 1+g.N(2000))
		if g.Chance(1, 4) {
			n = min(w.tor.PLen(i), 16384)
		}
		return msg(mPiece, u32s(uint32(i), 0), w.tor.Piece(i)[:n])
	}
}

func (w *World) goodHandshake(p *Peer, g *rt.Stream) []byte {
	res := uint64(0)
	switch g.N(4) {
	case 1:
		res = 0x0000000000100005
	case 2:
		res = g.U64()
	}
	if g.Chance(1, 3) { // any 20 bytes are an id
		id := make([]byte, 20)
		switch g.N(4) {
		case 0, 1:
			fill(id, g.U64())
		case 2: // the same software
			copy(id, fmt.Sprintf("-GT0000-%012d", g.N(1000000)))
		}
		p.id = string(id)
	}
	return mkHandshake(w.tor.InfoHash, p.id, res)
}

type honestOpt struct {
	batches  int
	perBatch int
	noise    int  // x of 10 messages are noise
	piggy    bool // data may follow the handshake at once
	await    int  // x of 10 batches are awaited before going on
	maxGap   int64
	bf       int // x of 10 send a bitfield first
	pipeline bool
	ann      []bool
}

// genHonest writes the script of a well-behaved peer that downloads from the client.
func (w *World) genHonest(g *rt.Stream, p *Peer, o honestOpt) {
	p.honest, p.live, p.goodHS = true, true, true
	var hv []int
	for i, h := range w.have {
		if h {
			hv = append(hv, i)
		}
	}
	hs := w.goodHandshake(p, g)
	hcuts := genCuts(g, 68, 500*ms)
	var out []byte
	if g.N(10) < o.bf {
		h := o.ann
		if h == nil {
			h = make([]bool, w.tor.NP)
			for i := range h {
				h[i] = g.Chance(1, 2)
			}
		}
		out = append(out, msg(mBitfield, bitfieldBytes(h))...)
	}
	type batch struct {
		b     []byte
		cuts  []cut
		await bool
		wait  int64
	}
	var bs []batch
	used := map[breq]bool{}
	reqs := [][]breq{}
	for i := 0; i < o.batches; i++ {
		var l []breq
		if len(hv) > 0 {
			j := g.Range(0, o.perBatch)
			long := i == 0 && o.pipeline && g.Chance(1, 3)
			if long { // many requests at once
				j = g.Range(100, 700)
			}
			for ; j > 0; j-- {
				q := genReq(g, w, hv)
				if long && q.n > 50 {
					q.n = 1 + q.n%50
				}
				used[q] = true
				l = append(l, q)
				if g.Chance(1, 12) {
					l = append(l, q)
				}
			}
		}
		reqs = append(reqs, l)
	}
	for i := 0; i < o.batches; i++ {
		b := out
		out = nil
		for _, q := range reqs[i] {
			for len(reqs[i]) < 50 && g.N(10) >= 10-o.noise {
				b = append(b, genNoise(g, w, used)...)
			}
			b = append(b, q.enc()...)
		}
		for g.N(10) >= 10-o.noise {
			b = append(b, genNoise(g, w, used)...)
		}
		mg := o.maxGap
		if g.Chance(1, 8) && mg > 0 {
			mg = 20 * sec
		}
		bs = append(bs, batch{b, genCuts(g, len(b), mg), g.N(10) < o.await, int64(g.N(200)) * ms})
	}
	if o.piggy && len(bs) > 0 && g.Chance(1, 2) {
		// the first messages come with the handshake
		b := append(append([]byte(nil), hs...), bs[0].b...)
		var cs []cut
		switch g.N(3) {
		case 1:
			cs = []cut{{68 + g.N(min(20, len(bs[0].b)+1)), int64(g.N(300)) * ms}}
		case 2:
			cs = append(genCuts(g, 68, 300*ms), cut{1 + g.N(len(b)), 0})
			if gapSum(cs) > 500*ms {
				cs = nil
			}
		}
		p.script = append(p.script, send(b, cs))
		if bs[0].await {
			p.script = append(p.script, step{kind: sAwait})
		}
		bs = bs[1:]
	} else {
		p.script = append(p.script, send(hs, hcuts))
		if g.Chance(1, 3) {
			p.script = append(p.script, step{kind: sWait, d: int64(g.N(300)) * ms})
		}
	}
	for _, b := range bs {
		p.script = append(p.script, send(b.b, b.cuts))
		if b.await {
			p.script = append(p.script, step{kind: sAwait})
		} else if b.wait > 0 && g.Chance(1, 3) {
			p.script = append(p.script, step{kind: sWait, d: b.wait})
		}
	}
	p.script = append(p.script, step{kind: sAwait})
}

// genHostileBytes draws bytes that violate the protocol one way or another.
func (w *World) genHostileBytes(g *rt.Stream) []byte {
	t := w.tor
	np := uint32(t.NP)
	idx := func() uint32 {
		switch g.N(8) {
		case 0, 7:
			return np
		case 1:
			return np + uint32(g.N(300))
		case 2:
			return 0xffffffff
		case 3:
			return 0x7fffffff
		case 4:
			return 0x80000000
		}
		return uint32(g.N(t.NP))
	}
	big := func() uint32 {
		switch g.N(9) {
		case 0:
			return 0
		case 1:
			return 0xffffffff
		case 2:
			return 0x80000000
		case 3:
			return 0x7fffffff
		case 4:
			return uint32(t.PieceLen)
		case 5:
			return uint32(t.PieceLen) + uint32(g.N(20))
		case 6:
			return uint32(max(0, t.PieceLen-1-g.N(8)))
		case 7:
			return uint32(g.N(t.PieceLen + 10))
		}
		return uint32(t.PLen(t.NP - 1))
	}
	nb := (t.NP + 7) / 8
	switch g.N(20) {
	case 0: // random bytes
		b := make([]byte, 1+g.N(400))
		fill(b, g.U64())
		return b
	case 1: // absurd length prefix
		l := []uint32{0xffffffff, 0x7fffffff, 0x80000000, 1<<20 + 1, 1 << 20, 1<<24 + 7, 0xfffffffb, 0xfffffffc}[g.N(8)]
		b := u32s(l)
		if g.Chance(3, 4) {
			b = append(b, byte(g.N(12)))
		}
		x := make([]byte, g.N(60))
		return append(b, x...)
	case 2: // request for what there is not
		return msg(mRequest, u32s(idx(), big(), big()))
	case 3:
		i := uint32(g.N(t.NP))
		return msg(mRequest, u32s(i, big(), big()))
	case 4: // have out of range
		return msg(mHave, u32s(idx()))
	case 5: // bitfield of the wrong size
		n := []int{0, nb - 1, nb + 1, nb + 100, 2 * nb}[g.N(5)]
		b := make([]byte, max(0, n))
		fill(b, g.U64())
		return msg(mBitfield, b)
	case 6: // bitfield with spare bits set
		b := make([]byte, nb)
		for i := range b {
			b[i] = 0xff
		}
		return msg(mBitfield, b)
	case 7: // fixed-size messages with other sizes
		id := []byte{mHave, mRequest, mCancel, mPiece, mChoke, mUnchoke, mInterested, mNotInterested}[g.N(8)]
		n := g.N(17)
		b := make([]byte, n)
		if g.Chance(1, 2) {
			fill(b, g.U64())
		}
		return msg(id, b)
	case 8: // block data of all sorts
		n := g.N(200)
		b := make([]byte, n)
		return msg(mPiece, u32s(idx(), big()), b)
	case 9: // a message cut short and another one after it
		m := msg(mRequest, u32s(uint32(g.N(t.NP)), 0, 1))
		k := g.N(len(m))
		return append(append([]byte(nil), m[:k]...), msg(mInterested)...)
	case 10: // many requests
		var b []byte
		for k := g.Range(1, 60); k > 0; k-- {
			i := g.N(t.NP)
			b = append(b, msg(mRequest, u32s(uint32(i), 0, uint32(min(t.PLen(i), 16384))))...)
		}
		return b
	case 11: // many haves
		var b []byte
		for k := g.Range(1, 60); k > 0; k-- {
			b = append(b, msg(mHave, u32s(uint32(g.N(t.NP))))...)
		}
		return b
	case 12: // second handshake
		return mkHandshake(t.InfoHash, "-XX0001-zzzzzzzzzzzz", 0)
	case 13: // whole piece in one request
		i := g.N(t.NP)
		return msg(mRequest, u32s(uint32(i), 0, uint32(t.PLen(i))))
	case 14: // last piece as if it were full length
		return msg(mRequest, u32s(uint32(t.NP-1), 0, uint32(t.PieceLen)))
	case 15: // wraps around when added up
		b := uint32(g.N(t.PieceLen + 1))
		return msg(mRequest, u32s(uint32(g.N(t.NP)), b, 0-b+uint32(g.N(4))))
	case 16: // empty range
		i := g.N(t.NP)
		return msg(mRequest, u32s(uint32(i), big(), 0))
	case 17: // lots of keep-alives and empty types
		var b []byte
		for k := g.Range(1, 300); k > 0; k-- {
			b = append(b, keepAlive...)
		}
		return b
	case 18: // bit flips in a valid stream
		i := g.N(t.NP)
		b := append(msg(mBitfield, make([]byte, nb)), msg(mRequest, u32s(uint32(i), 0, 1))...)
		b = append(b, msg(mHave, u32s(uint32(i)))...)
		for k := g.Range(1, 3); k > 0; k-- {
			b[g.N(len(b))] ^= 1 << g.N(8)
		}
		return b
	default: // big message of an unknown type
		b := make([]byte, []int{16380, 16384, 65535, 70000, 300000}[g.N(5)])
		return msg(byte(g.Range(9, 255)), b)
	}
}

// genHostile writes the script of a peer that misbehaves.
func (w *World) genHostile(g *rt.Stream, p *Peer) {
	if g.Chance(1, 8) { // not even a handshake
		b := w.genHostileBytes(g)
		if g.Chance(1, 2) {
			hs := w.goodHandshake(p, g)
			hs[g.N(68)] ^= 1 << g.N(8)
			b = append(hs, b...)
		}
		p.script = append(p.script, send(b, genCuts(g, len(b), 800*ms)))
	} else {
		b := w.goodHandshake(p, g)
		p.goodHS = true
		cs := genCuts(g, 68, 300*ms)
		if g.Chance(1, 3) {
			b = append(b, w.genHostileBytes(g)...)
		}
		p.script = append(p.script, send(b, cs))
		for k := g.Range(1, 6); k > 0; k-- {
			b := w.genHostileBytes(g)
			if g.Chance(1, 10) {
				p.script = append(p.script, step{kind: sStopRead})
			}
			cs := genCuts(g, len(b), 2*sec)
			if g.Chance(1, 6) { // stop in mid-message
				b = b[:g.N(len(b))]
			}
			p.script = append(p.script, send(b, cs))
			if g.Chance(1, 4) {
				p.script = append(p.script, step{kind: sWait, d: int64(g.N(3000)) * ms})
			}
		}
	}
	w.genEnding(g, p, true)
}

// genEnding decides how the connection ends.
func (w *World) genEnding(g *rt.Stream, p *Peer, stay bool) {
	switch g.N(10) {
	case 0, 1:
		p.script = append(p.script, step{kind: sClose})
	case 2, 3:
		p.script = append(p.script, step{kind: sReset})
	case 4:
		p.script = append(p.script, step{kind: sHalfClose})
		p.bounded, p.why = 300*sec, "C14"
	case 5:
		p.script = append(p.script, step{kind: sVanish})
	case 6:
		if stay {
			p.script = append(p.script, step{kind: sSilence, d: int64(g.N(5)) * sec})
		} else {
			p.script = append(p.script, step{kind: sSilence, d: 10 * sec}, step{kind: sClose})
		}
	default:
		if !stay {
			p.script = append(p.script, step{kind: sClose})
		}
	}
}

// genHSTest writes the script of a peer that tests the handshake.
func (w *World) genHSTest(g *rt.Stream, p *Peer) {
	hs := w.goodHandshake(p, g)
	bad := func(b []byte, cs []cut) {
		p.bounded, p.why = 60*sec, "C04"
		p.script = append(p.script, send(b, cs))
	}
	switch g.N(9) {
	case 0: // one bit off
		k := g.N(48)
		if k >= 20 && k < 28 {
			k = 28 + k - 20
		}
		hs[k] ^= 1 << g.N(8)
		bad(hs, genCuts(g, 68, 500*ms))
	case 1: // other info-hash
		ih := make([]byte, 20)
		fill(ih, g.U64())
		bad(mkHandshake(string(ih), p.id, 0), genCuts(g, 68, 500*ms))
	case 2: // truncated, then silence
		bad(hs[:g.N(68)], nil)
	case 3: // truncated, then end
		p.script = append(p.script, send(hs[:g.N(68)], nil))
		w.genEnding(g, p, false)
	case 4: // something else
		b := make([]byte, g.Range(0, 200))
		fill(b, g.U64())
		if len(b) > 0 && b[0] == 19 {
			b[0] = 20
		}
		bad(b, genCuts(g, len(b), 500*ms))
	case 5: // nothing
		p.bounded, p.why = 60*sec, "C04"
	case 6: // dribbles too slowly: never complete
		var cs []cut
		k := g.Range(1, 60)
		for i := 0; i < k; i++ {
			cs = append(cs, cut{1, 2 * sec})
		}
		b := hs[:k]
		p.bounded, p.why = 60*sec, "C04"
		p.script = append(p.script, step{kind: sSend, data: b, cuts: cs})
	case 7: // wrong first byte or name, rest right, plus requests behind it
		switch g.N(4) {
		case 0:
			hs[0] = byte(g.N(256))
			if hs[0] == 19 {
				hs[0] = 18
			}
		case 1:
			copy(hs[1:], "bittorrent protocol")
		case 2:
			hs[19] = 'L'
		case 3:
			for i := 28; i < 48; i++ {
				hs[i] = 0
			}
		}
		hs = append(hs, msg(mRequest, u32s(0, 0, 1))...)
		bad(hs, genCuts(g, len(hs), 300*ms))
	default: // right, in every segmentation
		p.honest, p.live, p.goodHS = true, true, true
		var cs []cut
		switch g.N(4) {
		case 0:
			cs = []cut{{1 + g.N(67), int64(g.N(700)) * ms}}
		case 1:
			for i := 0; i < 67; i++ {
				cs = append(cs, cut{1, int64(g.N(8)) * ms})
			}
		case 2:
			cs = genCuts(g, 68, 600*ms)
		}
		b := hs
		if len(w.haveList()) > 0 && g.Chance(1, 2) {
			q := genReq(g, w, w.haveList())
			b = append(b, q.enc()...)
		}
		p.script = append(p.script, send(b, cs), step{kind: sAwait}, step{kind: sWait, d: sec})
	}
}

func (w *World) haveList() []int {
	var hv []int
	for i, h := range w.have {
		if h {
			hv = append(hv, i)
		}
	}
	return hv
}

// genStall writes the script of a peer that stops reading, reads slowly, goes
// silent in mid-message or vanishes.
func (w *World) genStall(g *rt.Stream, p *Peer) {
	hv := w.haveList()
	p.script = append(p.script, send(w.goodHandshake(p, g), nil))
	p.goodHS = true
	if g.Chance(1, 4) { // it has something, too
		h := make([]bool, w.tor.NP)
		for i := range h {
			h[i] = g.Chance(1, 2)
		}
		p.script = append(p.script, send(msg(mBitfield, bitfieldBytes(h)), nil))
	}
	flood := func() {
		var b []byte
		for k := g.Range(1, 60); k > 0 && len(hv) > 0; k-- {
			q := genReq(g, w, hv)
			b = append(b, q.enc()...)
		}
		p.script = append(p.script, send(b, nil))
	}
	switch g.N(6) {
	case 5: // takes in next to nothing from the start
		p.win, p.readMode, p.live = 1+g.N(68+5+(w.tor.NP+7)/8+10), 2, false
		if g.Chance(1, 2) {
			flood()
		}
		if g.Chance(1, 2) {
			p.script = append(p.script, step{kind: sSilence, d: int64(g.N(100)) * sec})
		}
	case 0:
		p.script = append(p.script, step{kind: sStopRead})
		flood()
	case 1:
		p.script = append(p.script, step{kind: sSlowRead, d: int64(g.N(1000))})
		flood()
	case 2: // silent in mid-message
		b := genReq0(g, w, hv).enc()
		p.script = append(p.script, send(b[:1+g.N(len(b)-1)], nil))
	case 3:
		flood()
		p.script = append(p.script, step{kind: sWait, d: int64(g.N(50)) * ms}, step{kind: sVanish})
	case 4: // big unfinished message
		b := make([]byte, 5+g.N(2000))
		binary.BigEndian.PutUint32(b, uint32(len(b)+g.N(100000)))
		b[4] = byte(g.Range(4, 30))
		p.script = append(p.script, send(b, nil))
	}
}

// genStalledLeech is a peer that has pieces but takes in next to nothing of what
// it is asked.
func (w *World) genStalledLeech(g *rt.Stream, p *Peer) {
	p.goodHS = true
	hs := w.goodHandshake(p, g)
	h := make([]bool, w.tor.NP)
	frac := []int{100, 50, 20}[g.N(3)]
	for i := range h {
		h[i] = g.N(100) < frac
	}
	b := msg(mBitfield, bitfieldBytes(h))
	p.live = false
	switch g.N(3) {
	case 0: // from the start
		p.win, p.readMode = 68+5+(w.tor.NP+7)/8+5+g.N(80), 2
		p.script = append(p.script, send(append(hs, b...), nil))
	case 1:
		p.win = 1 + g.N(200)
		p.script = append(p.script, send(hs, nil), step{kind: sStopRead}, send(b, nil))
	case 2:
		p.win = 1 + g.N(200)
		p.script = append(p.script, send(hs, nil), step{kind: sSlowRead, d: int64(g.N(1000))}, send(b, nil))
	}
	p.script = append(p.script, step{kind: sSilence, d: int64(g.N(100)) * sec})
}

// genTorn is a peer to which several tasks have something to send when one write
// fails, having sent some of it; later writes would succeed.
func (w *World) genTorn(g *rt.Stream, p *Peer) {
	hv := w.haveList()
	burst := func(n int) (b []byte) {
		for k := g.Range(1, n); k > 0; k-- {
			switch {
			case len(hv) > 0 && g.Chance(2, 3):
				b = append(b, genReq(g, w, hv).enc()...)
			default:
				b = append(b, msg(mHave, u32s(uint32(g.N(w.tor.NP))))...)
			}
		}
		return b
	}
	fail := step{kind: sWFail, d: int64(1 + g.N(30)), cuts: []cut{{g.N(5), int64(g.Range(1, 2))}}}
	if g.Chance(2, 3) {
		p.win = g.Range(20, 600)
	}
	if g.Chance(3, 4) { // while much is said at the start
		p.live, p.honest, p.goodHS = false, true, true
		fail.cuts[0].n = 3 + g.N(12)
		h := make([]bool, w.tor.NP)
		for i := range h {
			h[i] = g.Chance(3, 4)
		}
		b := append(w.goodHandshake(p, g), msg(mBitfield, bitfieldBytes(h))...)
		b = append(b, burst(20)...)
		var cs []cut
		if g.Chance(1, 3) {
			cs = genCuts(g, len(b), 20*ms)
		}
		p.script = append(p.script, fail, send(b, cs))
	} else {
		w.genLeech(g, p, false)
		if g.Chance(1, 2) {
			p.script = append(p.script, step{kind: sIdle, d: int64(g.N(130)) * sec})
		}
		p.script = append(p.script, step{kind: sUnlive}, fail)
	}
	for k := g.Range(1, 4); k > 0; k-- {
		b := burst(12)
		p.script = append(p.script, send(b, genCuts(g, len(b), 20*ms)))
	}
	p.script = append(p.script, step{kind: sIdle, d: int64(g.N(130)) * sec})
}

// genCrawl is a peer that asks for long blocks and reads them so slowly that they
// are still being sent when the client has other things to say.
func (w *World) genCrawl(g *rt.Stream, p *Peer) {
	hv := w.haveList()
	p.goodHS = true
	b := w.goodHandshake(p, g)
	if g.Chance(1, 2) {
		h := make([]bool, w.tor.NP)
		for i := range h {
			h[i] = g.Chance(2, 3)
		}
		b = append(b, msg(mBitfield, bitfieldBytes(h))...)
	}
	p.script = append(p.script, send(b, nil), step{kind: sWait, d: int64(g.N(40)) * sec})
	var reqs []byte
	longest := 1
	if len(hv) > 0 {
		for k := g.Range(1, 12); k > 0; k-- {
			q := genReq(g, w, hv)
			if g.Chance(1, 2) { // all of a piece
				i := hv[g.N(len(hv))]
				q = breq{uint32(i), 0, uint32(w.tor.PLen(i))}
			}
			longest = max(longest, int(q.n))
			reqs = append(reqs, q.enc()...)
		}
	}
	gap := int64(g.Range(1, 50)) * 100 * ms
	d := int64(g.Range(5, 100)) * sec // for the longest
	p.script = append(p.script,
		step{kind: sSlowRead, cuts: []cut{{1 + int(int64(longest)*gap/d), gap}}},
		send(reqs, nil),
		step{kind: sIdle, d: int64(g.Range(60, 400)) * sec})
}

func genReq0(g *rt.Stream, w *World, hv []int) breq {
	if len(hv) == 0 {
		return breq{0, 0, 1}
	}
	return genReq(g, w, hv)
}
