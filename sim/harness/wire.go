package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"vsim/rt"
)

// ---- bencoding (the harness's own, independent of the code under test)

type bdict map[string]any
type braw string

func benc(v any) string {
	switch x := v.(type) {
	case braw:
		return string(x)
	case string:
		return fmt.Sprintf("%d:%s", len(x), x)
	case int:
		return fmt.Sprintf("i%de", x)
	case int64:
		return fmt.Sprintf("i%de", x)
	case []any:
		var b strings.Builder
		b.WriteByte('l')
		for _, e := range x {
			b.WriteString(benc(e))
		}
		b.WriteByte('e')
		return b.String()
	case bdict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteByte('d')
		for _, k := range ks {
			b.WriteString(benc(k))
			b.WriteString(benc(x[k]))
		}
		b.WriteByte('e')
		return b.String()
	}
	panic(fmt.Sprintf("benc %T", v))
}

func sha(b []byte) string { h := sha1.Sum(b); return string(h[:]) }

// ---- torrents

type TFile struct {
	Path []string
	Len  int
	Off  int
}

type Tor struct {
	Elsewhere string // where the file of a single-file torrent is, if not under its name
	Name      string
	PieceLen  int
	NP        int
	Total     int
	Files     []TFile
	Single    bool
	Content   []byte
	Hashes    string
	Announce  string
	Raw       []byte
	InfoHash  string
}

const dataDir = "/data"

func (t *Tor) PLen(i int) int {
	if i == t.NP-1 {
		return t.Total - i*t.PieceLen
	}
	return t.PieceLen
}

func (t *Tor) Piece(i int) []byte { return t.Content[i*t.PieceLen : i*t.PieceLen+t.PLen(i)] }

func (t *Tor) Local(i int) string {
	if t.Elsewhere != "" {
		return dataDir + "/" + t.Elsewhere
	}
	if t.Single {
		return dataDir + "/" + t.Name
	}
	return dataDir + "/" + t.Name + "/" + strings.Join(t.Files[i].Path, "/")
}

// fill generates content bytes.
func fill(b []byte, seed uint64) {
	x := seed | 1
	for i := range b {
		if i%8 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		b[i] = byte(x >> (8 * (i % 8)))
	}
}

func (t *Tor) info() bdict {
	d := bdict{"name": t.Name, "piece length": t.PieceLen, "pieces": t.Hashes}
	if t.Single {
		d["length"] = t.Files[0].Len
	} else {
		l := []any{}
		for _, f := range t.Files {
			p := []any{}
			for _, c := range f.Path {
				p = append(p, c)
			}
			l = append(l, bdict{"length": f.Len, "path": p})
		}
		d["files"] = l
	}
	return d
}

func (t *Tor) finish(seed uint64) {
	off := 0
	for i := range t.Files {
		t.Files[i].Off = off
		off += t.Files[i].Len
	}
	t.Total = off
	t.Content = make([]byte, off)
	fill(t.Content, seed)
	t.NP = (t.Total + t.PieceLen - 1) / t.PieceLen
	t.regular(seed)
	t.rehash()
}

// rehash describes the content as it is.
func (t *Tor) rehash() {
	var h strings.Builder
	for i := 0; i < t.NP; i++ {
		h.WriteString(sha(t.Piece(i)))
	}
	t.Hashes = h.String()
	t.render()
}

// regular gives the content regularities: zeros, pieces that are the same.
func (t *Tor) regular(seed uint64) {
	x := seed | 1
	n := func(k int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int((x >> 33) % uint64(k))
	}
	zero := func(b []byte) {
		for i := range b {
			b[i] = 0
		}
	}
	switch (seed >> 40) % 8 {
	case 4: // blank pieces
		for i := 0; i < t.NP; i++ {
			if n(3) == 0 {
				zero(t.Piece(i))
			}
		}
	case 5: // blank parts of pieces
		for i := 0; i < t.NP; i++ {
			p := t.Piece(i)
			switch k := n(len(p) + 1); n(4) {
			case 0:
				zero(p[:k])
			case 1:
				zero(p[k:])
			case 2:
				zero(p[k/2 : k])
			}
		}
	case 6: // the same piece several times
		for i := 1; i < t.NP; i++ {
			if n(2) == 0 {
				copy(t.Piece(i), t.Piece(n(i)))
			}
		}
	case 7: // blank files
		for _, f := range t.Files {
			if n(2) == 0 {
				zero(t.Content[f.Off : f.Off+f.Len])
			}
		}
	}
}

func (t *Tor) render() {
	ib := benc(t.info())
	t.InfoHash = sha([]byte(ib))
	t.Raw = []byte(benc(bdict{"announce": t.Announce, "info": braw(ib), "creation date": 1234567, "comment": "sim"}))
}

// genTor draws a small torrent.
func genTor(g *rt.Stream, maxTotal int) *Tor {
	t := &Tor{Name: pickS(g, "tor", "a b", "film.mkv", "d"), Announce: "http://tracker.sim:6969/announce"}
	switch g.Weighted(4, 4, 3, 2, 1) {
	case 0:
		t.PieceLen = g.Range(2, 64)
	case 1:
		t.PieceLen = g.Range(65, 4000)
	case 2:
		t.PieceLen = []int{16384, 16383, 16385, 20000, 32768, 40000, 8192}[g.N(7)]
	case 3:
		t.PieceLen = 1 << g.Range(3, 13)
	case 4:
		t.PieceLen = 1
	}
	np := 1 + g.Small(13)
	if t.PieceLen <= 100 && g.Chance(1, 3) {
		np = g.Range(9, 150)
	}
	for np > 1 && np*t.PieceLen > maxTotal {
		np--
	}
	total := np * t.PieceLen
	if g.Chance(2, 3) && t.PieceLen > 1 { // short last piece
		switch g.N(3) {
		case 0:
			total -= g.N(t.PieceLen)
		case 1:
			total -= t.PieceLen - 1
		case 2:
			total -= 1
		}
	}
	nf := 1
	if g.Chance(1, 2) {
		nf = g.Range(2, 5)
	}
	t.Single = nf == 1 && !g.Chance(1, 8)
	if t.Single {
		t.Files = []TFile{{Path: nil, Len: total}}
	} else {
		left := total
		for i := 0; i < nf; i++ {
			n := left
			if i < nf-1 {
				switch g.N(5) {
				case 0:
					n = g.N(left + 1)
				case 1:
					n = min(left, t.PieceLen)
				case 2:
					n = min(left, t.PieceLen*g.Range(1, 3)+g.N(3)-1)
				case 3:
					n = min(left, g.N(4))
				case 4:
					n = left / 2
				}
				if n < 0 {
					n = 0
				}
			}
			var p []string
			for j := g.N(3); j > 0; j-- {
				p = append(p, fmt.Sprintf("d%d", g.N(2)))
			}
			p = append(p, fmt.Sprintf("f%d", i))
			t.Files = append(t.Files, TFile{Path: p, Len: n})
			left -= n
		}
	}
	t.finish(g.U64())
	return t
}

func pickS(g *rt.Stream, xs ...string) string { return xs[g.N(len(xs))] }

// resized is the torrent of the same files, one of them with the extra bytes at its
// end, or cut off (extra nil) to n bytes.
func (t *Tor) resized(k, n int, extra []byte) *Tor {
	u := *t
	u.Files = append([]TFile(nil), t.Files...)
	f := &u.Files[k]
	var old []byte
	if extra == nil {
		old = t.Content[f.Off : f.Off+n]
	} else {
		old = append(append([]byte(nil), t.Content[f.Off:f.Off+f.Len]...), extra...)
	}
	u.Content = append(append(append([]byte(nil), t.Content[:f.Off]...), old...), t.Content[f.Off+f.Len:]...)
	f.Len = len(old)
	off := 0
	for i := range u.Files {
		u.Files[i].Off = off
		off += u.Files[i].Len
	}
	u.Total = off
	u.NP = (u.Total + u.PieceLen - 1) / u.PieceLen
	u.rehash()
	return &u
}

// putAll writes the complete files of the torrent.
func (t *Tor) putAll(fs *rt.FS) {
	for i, f := range t.Files {
		fs.Put(t.Local(i), t.Content[f.Off:f.Off+f.Len])
	}
}

// diskPiece reads piece i from the simulated disk; ok is false if bytes are missing.
func (t *Tor) diskPiece(fs *rt.FS, i int) ([]byte, bool) {
	lo, hi := i*t.PieceLen, i*t.PieceLen+t.PLen(i)
	out := make([]byte, 0, hi-lo)
	for k, f := range t.Files {
		a, b := max(lo, f.Off), min(hi, f.Off+f.Len)
		if a >= b {
			continue
		}
		d, ok := fs.Peek(t.Local(k))
		if !ok || len(d) < b-f.Off {
			return nil, false
		}
		out = append(out, d[a-f.Off:b-f.Off]...)
	}
	return out, true
}

// truth is which pieces the disk holds correctly.
func (t *Tor) truth(fs *rt.FS) []bool {
	h := make([]bool, t.NP)
	for i := range h {
		b, ok := t.diskPiece(fs, i)
		h[i] = ok && sha(b) == t.Hashes[i*20:i*20+20]
	}
	return h
}

// setByte changes one content byte on disk at torrent offset off.
func (t *Tor) flipDisk(fs *rt.FS, off int, x byte) {
	for k, f := range t.Files {
		if off >= f.Off && off < f.Off+f.Len {
			if d, ok := fs.Peek(t.Local(k)); ok && off-f.Off < len(d) {
				d[off-f.Off] ^= x
			}
			return
		}
	}
}

// ---- wire format

const (
	mChoke = iota
	mUnchoke
	mInterested
	mNotInterested
	mHave
	mBitfield
	mRequest
	mPiece
	mCancel
)

var keepAlive = []byte{0, 0, 0, 0}

func msg(id byte, payload ...[]byte) []byte {
	n := 1
	for _, p := range payload {
		n += len(p)
	}
	b := make([]byte, 4, 4+n)
	binary.BigEndian.PutUint32(b, uint32(n))
	b = append(b, id)
	for _, p := range payload {
		b = append(b, p...)
	}
	return b
}

func u32s(xs ...uint32) []byte {
	b := make([]byte, 0, 4*len(xs))
	for _, x := range xs {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return b
}

func mkHandshake(infohash, id string, reserved uint64) []byte {
	b := make([]byte, 0, 68)
	b = append(b, 19)
	b = append(b, "BitTorrent protocol"...)
	b = binary.BigEndian.AppendUint64(b, reserved)
	b = append(b, infohash...)
	b = append(b, id...)
	return b
}

func bitfieldBytes(h []bool) []byte {
	b := make([]byte, (len(h)+7)/8)
	for i, x := range h {
		if x {
			b[i/8] |= 128 >> (i % 8)
		}
	}
	return b
}

type breq struct{ idx, begin, n uint32 }

func (q breq) String() string { return fmt.Sprintf("(%d,%d,%d)", q.idx, q.begin, q.n) }
