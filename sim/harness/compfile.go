//go:build !nofile

package main

import (
	"fmt"
	"strings"
	"syscall"

	"gotor/torrent"
	"gotor/torrent/fileio"

	"vsim/rt"
)

func init() {
	plan("C07", "fileio:C07", 10)
	plan("C24", "fileio:C24", 10)
	plan("C08", "crashstore:C08", 10)
}

func init() {
	scenarios["fileio:C07"] = func(r *Run) { r.fileioScenario("C07") }
	scenarios["fileio:C24"] = func(r *Run) { r.fileioScenario("C24") }
	scenarios["crashstore:C08"] = func(r *Run) { r.crashStore() }
}

// store drives one FileIO from several tasks and knows what its files may contain.
type store struct {
	w       *World
	focus   string
	fio     *fileio.FileIO
	openErr error
	init    []byte // the content when the files had been opened
	began   []bool // a valid write of the piece was started
	torn    []bool // a valid write of the piece failed, perhaps half way
	acked   []bool // a valid write of the piece reported success
	path    []string
	closing []bool // file k: a close has begun
	shut    []bool // file k: a close has returned
	closes  []int  // file k: closes that reported success since it was opened
	moving  []bool // file k: a move is going on
	moveTo  []string
	moved   []bool // file k: a move has begun at some time
	inj     int    // faults injected so far
	injC    int    // ... into close
	wfault  bool
	ended   int
	fresh   int
}

func newStore(w *World, focus string) *store {
	s := &store{w: w, focus: focus}
	n, np := len(w.tor.Files), w.tor.NP
	s.began, s.acked, s.torn = make([]bool, np), make([]bool, np), make([]bool, np)
	s.closing, s.shut, s.moving, s.moved = make([]bool, n), make([]bool, n), make([]bool, n), make([]bool, n)
	s.closes, s.moveTo = make([]int, n), make([]string, n)
	for k := range w.tor.Files {
		s.path = append(s.path, w.tor.Local(k))
	}
	return s
}

// open creates the FileIO and opens all files; it runs in the process.
func (s *store) open() bool {
	t := s.w.tor
	tor, e := torrent.FromTorrentFile("/t.torrent", dataDir)
	if e != nil {
		s.openErr = e
		return false
	}
	s.fio = fileio.NewFileIO(tor.Info())
	if e := s.fio.OCATAll(tor.Info().Files()); e != nil {
		s.openErr = e
		return false
	}
	for k := range t.Files {
		s.closing[k], s.shut[k], s.closes[k] = false, false, 0
	}
	s.snap()
	return true
}

// snap takes the present disk contents as the initial ones.
func (s *store) snap() {
	t := s.w.tor
	s.init = make([]byte, t.Total)
	for k, f := range t.Files {
		b, _ := s.w.host.FS.Peek(s.path[k])
		copy(s.init[f.Off:f.Off+f.Len], b)
	}
}

// seg calls f for each file part of piece i that is not empty.
func (s *store) seg(i int, f func(file, lo, hi int)) {
	t := s.w.tor
	lo, hi := i*t.PieceLen, i*t.PieceLen+t.PLen(i)
	for k, fl := range t.Files {
		a, b := max(lo, fl.Off), min(hi, fl.Off+fl.Len)
		if a < b {
			f(k, a, b)
		}
	}
}

// disk checks the bytes of piece i on disk.
func (s *store) disk(i int, after string) {
	r, t := s.w.r, s.w.tor
	s.seg(i, func(k, lo, hi int) {
		if r.bad() || s.moving[k] {
			return
		}
		f := t.Files[k]
		b, ok := s.w.host.FS.Peek(s.path[k])
		if !ok {
			r.Fail(s.focus, "after %s: file %s is gone", after, s.path[k])
			return
		}
		if len(b) != f.Len {
			r.Fail(s.focus, "after %s: file %s has %d bytes instead of %d", after, s.path[k], len(b), f.Len)
			return
		}
		for o := lo; o < hi; o++ {
			x := b[o-f.Off]
			if x == t.Content[o] && (s.began[i] || x == s.init[o]) {
				continue
			}
			if s.acked[i] {
				r.Fail(s.focus, "after %s: byte %d of piece %d is %#x although a write of that piece had reported success (should be %#x)", after, o-i*t.PieceLen, i, x, t.Content[o])
				return
			}
			if x != s.init[o] {
				r.Fail(s.focus, "after %s: byte %d of piece %d changed to %#x (was %#x, content %#x, valid write started: %v)", after, o-i*t.PieceLen, i, x, s.init[o], t.Content[o], s.began[i])
				return
			}
		}
	})
}

func (s *store) wholeDisk(after string) {
	for i := 0; i < s.w.tor.NP && !s.w.r.bad(); i++ {
		s.disk(i, after)
	}
}

// touches says whether piece i has bytes in a file for which has holds; with
// edges also empty files count that lie inside or at the edge of the piece.
func (s *store) touches(i int, has []bool, edges bool) bool {
	t := s.w.tor
	lo, hi := i*t.PieceLen, i*t.PieceLen+t.PLen(i)
	for k, f := range t.Files {
		if !has[k] {
			continue
		}
		if f.Len > 0 && f.Off < hi && f.Off+f.Len > lo || edges && f.Len == 0 && f.Off >= lo && f.Off <= hi {
			return true
		}
	}
	return false
}

// afterOp: on small torrents the whole disk is checked after each operation.
func (s *store) afterOp(what string) {
	if s.w.tor.Total <= 6000 {
		s.wholeDisk(what)
	}
}

// excused: an error of an operation on piece i has another cause than a disk fault.
func (s *store) excused(i int) bool {
	return s.touches(i, s.closing, true) || s.touches(i, s.moved, true)
}

func (s *store) write(i int) {
	r, t := s.w.r, s.w.tor
	what := fmt.Sprintf("write of piece %d", i)
	data := append([]byte(nil), t.Piece(i)...)
	f0 := s.inj
	exc, mustErr := s.excused(i), s.touches(i, s.shut, false)
	s.began[i] = true
	r.ev("%s", what)
	n, e := s.fio.WritePiece(int64(i), data)
	r.ev("%s: %d, %v", what, n, e)
	if e == nil {
		s.acked[i] = true
		if mustErr {
			r.Fail("C24", "%s reported success although one of its files was closed", what)
		}
		if int(n) != t.PLen(i) {
			r.Fail("C07", "%s reported success but %d bytes instead of %d", what, n, t.PLen(i))
		}
		r.Count["writes_ok"]++
	} else {
		s.torn[i] = true
		r.Count["writes_failed"]++
		if s.inj == f0 && !exc && !s.excused(i) {
			r.Fail("C07,C24", "%s failed without a storage error: %v", what, e)
		}
	}
	if string(data) != string(t.Piece(i)) {
		r.Fail("C07", "%s changed the caller's data", what)
	}
	s.disk(i, what)
	s.afterOp(what)
}

func (s *store) writeBad(g *rt.Stream, i int) {
	r, t := s.w.r, s.w.tor
	data := append([]byte(nil), t.Piece(i)...)
	idx := i
	what := ""
	switch g.N(7) {
	case 0:
		data[g.N(len(data))] ^= byte(1 + g.N(255))
		what = "with a wrong byte"
	case 1:
		data = data[:g.N(len(data))]
		what = "cut short"
	case 2:
		data = append(data, t.Content[:1+g.N(min(t.Total, 50))]...)
		what = "too long"
	case 3:
		idx = g.N(t.NP)
		if string(t.Piece(idx)) == string(data) {
			return
		}
		what = fmt.Sprintf("with the data of piece %d", i)
	case 4:
		idx = []int{-1, t.NP, t.NP + 7, 1 << 30}[g.N(4)]
		what = "that does not exist"
	case 5:
		data = make([]byte, len(data))
		if string(t.Piece(idx)) == string(data) {
			return
		}
		what = "with zeros"
	case 6:
		data = nil
		what = "without data"
	}
	what = fmt.Sprintf("write of piece %d %s", idx, what)
	r.ev("%s", what)
	n, e := s.fio.WritePiece(int64(idx), data)
	r.ev("%s: %d, %v", what, n, e)
	r.Count["writes_bad"]++
	if e == nil {
		r.Fail("C07", "%s was not refused", what)
	}
	s.afterOp(what)
}

func (s *store) read(g *rt.Stream, i int) {
	r, t := s.w.r, s.w.tor
	what := fmt.Sprintf("read of piece %d", i)
	if g.Chance(1, 40) {
		idx := []int{-1, t.NP, t.NP + 3, 1 << 30}[g.N(4)]
		if _, e := s.fio.ReadPiece(int64(idx), make([]byte, t.PieceLen)); e == nil {
			r.Fail("C07", "read of piece %d, which does not exist, reported success", idx)
		}
		return
	}
	buf := make([]byte, t.PLen(i)+g.N(3)*g.N(20))
	for k := range buf {
		buf[k] = 0xA5
	}
	f0 := s.inj
	exc, mustErr := s.excused(i), s.touches(i, s.shut, false)
	done := s.acked[i]
	r.ev("%s", what)
	n, e := s.fio.ReadPiece(int64(i), buf)
	r.ev("%s: %d, %v", what, n, e)
	if e != nil {
		r.Count["reads_failed"]++
		if s.inj == f0 && !exc && !s.excused(i) {
			r.Fail("C07,C24", "%s failed without a storage error: %v", what, e)
		}
		return
	}
	r.Count["reads_ok"]++
	if mustErr {
		r.Fail("C24", "%s reported success although one of its files was closed", what)
	}
	if int(n) != t.PLen(i) {
		r.Fail("C07,C24", "%s reported success but %d bytes instead of %d", what, n, t.PLen(i))
	}
	for k := t.PLen(i); k < len(buf); k++ {
		if buf[k] != 0xA5 {
			r.Fail("C07,C24", "%s altered the buffer beyond the piece", what)
		}
	}
	s.seg(i, func(k, lo, hi int) {
		if r.bad() {
			return
		}
		old, now := true, true
		for o := lo; o < hi; o++ {
			x := buf[o-i*t.PieceLen]
			old, now = old && x == s.init[o], now && x == t.Content[o]
			if x != t.Content[o] && (done || x != s.init[o]) || x != s.init[o] && !s.began[i] {
				r.Fail("C07,C24", "%s reported success with wrong data: byte %d is %#x (before: %#x, content: %#x; stored: %v)", what, o-i*t.PieceLen, x, s.init[o], t.Content[o], done)
				return
			}
		}
		if !s.torn[i] && !old && !now && !s.wfault {
			r.Fail("C07", "%s returned part of file %s from before and part from after a write", what, s.path[k])
		}
	})
}

func (s *store) closeFile(k int) {
	r := s.w.r
	f0, was, closed := s.injC, s.closing[k], s.shut[k]
	s.closing[k] = true
	r.ev("close of %s", s.w.tor.Local(k))
	e := s.fio.Close(s.w.tor.Local(k))
	r.ev("close of %s: %v", s.w.tor.Local(k), e)
	s.shut[k] = true
	if e == nil {
		s.closes[k]++
		if closed || s.closes[k] > 1 {
			r.Fail("C24", "closing %s, which was closed already, reported success", s.path[k])
		}
	} else if !was && s.injC == f0 && !s.moved[k] && s.closes[k] == 0 {
		r.Fail("C24", "closing %s failed without cause: %v", s.path[k], e)
	}
	r.Count["closes"]++
}

func (s *store) move(g *rt.Stream, k int) {
	r, fs := s.w.r, s.w.host.FS
	if s.moving[k] {
		return
	}
	s.fresh++
	to := fmt.Sprintf("/moved/m%d", s.fresh)
	switch g.N(6) {
	case 0:
		to = fmt.Sprintf("%s.m%d", s.path[k], s.fresh)
	case 1:
		to = fmt.Sprintf("/nowhere/m%d", s.fresh)
	case 2:
		to = fmt.Sprintf("/data/m%d", s.fresh)
	}
	from := s.path[k]
	before, _ := fs.Get(from)
	f0 := s.inj
	first := !s.moved[k]
	s.moving[k], s.moved[k], s.moveTo[k] = true, true, to
	r.ev("move of %s to %s", from, to)
	e := s.fio.Move(s.w.tor.Local(k), to)
	r.ev("move of %s to %s: %v", from, to, e)
	_, atFrom := fs.Peek(from)
	_, atTo := fs.Peek(to)
	if e == nil {
		if !atTo {
			r.Fail("C24,C08", "moving %s to %s reported success but the file is not there", from, to)
		} else if atFrom {
			r.Fail("C24", "moving %s to %s reported success but the file is still there too", from, to)
		}
		s.path[k] = to
		r.Count["moves_ok"]++
	} else {
		if !atFrom && atTo {
			r.Fail("C24", "moving %s to %s reported %v but moved the file", from, to, e)
		} else if !atFrom {
			r.Fail("C24,C08", "moving %s (%d bytes) to %s failed (%v) and lost the file", from, len(before), to, e)
		}
		if first && s.inj == f0 && !strings.HasPrefix(to, "/nowhere") && !s.closing[k] {
			r.Fail("C24", "moving %s to %s failed without cause: %v", from, to, e)
		}
		r.Count["moves_failed"]++
	}
	s.moving[k] = false
	s.wholeDisk("move")
}

func (s *store) unknown(g *rt.Stream) {
	r := s.w.r
	p := []string{"/data/unrelated", "/data/nope", "/etc/passwd", "", "nope"}[g.N(5)]
	if g.Chance(1, 2) {
		if e := s.fio.Close(p); e == nil {
			r.Fail("C24", "closing the unknown file %q reported success", p)
		}
	} else {
		if e := s.fio.Move(p, "/moved/unknown"); e == nil {
			r.Fail("C24", "moving the unknown file %q reported success", p)
		}
		if _, ok := s.w.host.FS.Peek("/moved/unknown"); ok {
			r.Fail("C24", "moving the unknown file %q did move it", p)
		}
	}
}

func (s *store) closeAll(concurrent bool) {
	r := s.w.r
	f0 := s.injC
	was := false
	for k := range s.closing {
		was = was || s.closing[k]
		s.closing[k] = true
	}
	r.ev("close of all files")
	e := s.fio.CloseAll()
	r.ev("close of all files: %v", e)
	for k := range s.shut {
		s.shut[k] = true
		s.closes[k]++
	}
	if of := s.w.host.FS.OpenFiles(); len(of) > 0 && !concurrent {
		r.Fail("C24", "after closing all files (%v) these are still open: %s", e, strings.Join(of, ", "))
	}
	if !concurrent {
		if e == nil && s.injC > f0 {
			r.Fail("C24", "closing a file failed but closing all files reported success")
		}
		if e != nil && s.injC == f0 && !was {
			r.Fail("C24", "closing all files failed without cause: %v", e)
		}
	}
	r.Count["closealls"]++
}

// faults installs a random plan of disk faults.
func (s *store) faults(g *rt.Stream) {
	fs, f := s.w.host.FS, s.w.r.Fault
	k := []int{4, 10, 40}[g.N(3)]
	kinds := map[string]bool{}
	switch g.N(4) {
	case 0:
		kinds["read"] = true
	case 1:
		kinds["write"] = true
	case 2:
		kinds["read"], kinds["write"] = true, true
	}
	if s.focus == "C24" {
		kinds["close"], kinds["rename"] = g.Chance(2, 3), g.Chance(1, 2)
	}
	short := g.Chance(1, 2)
	xdev := s.focus == "C24" && g.Chance(1, 4) // moves lead to another file system
	fs.Inject = func(op rt.FSOp) rt.FSFault {
		if xdev && op.Op == "rename" {
			s.inj++
			return rt.FSFault{Err: syscall.EXDEV}
		}
		if kinds[op.Op] && f.Chance(1, k) {
			s.inj++
			if op.Op == "write" {
				s.wfault = true
			}
			if op.Op == "close" {
				s.injC++
				return rt.FSFault{Err: []error{syscall.EIO, syscall.ENOSPC, syscall.EINTR}[f.N(3)]}
			}
			ft := rt.FSFault{Err: diskErrs[f.N(len(diskErrs))]}
			if op.N > 0 && f.Chance(1, 2) {
				ft.Part = f.N(op.N + 1)
			}
			return ft
		}
		if short && op.Op == "read" && op.N > 1 && f.Chance(1, 3) {
			return rt.FSFault{Part: 1 + f.N(op.N-1)}
		}
		return rt.FSFault{}
	}
}

// phase runs n tasks of random operations in the process; it returns at once.
func (s *store) phase(g *rt.Stream, n int, wg *int) {
	t := s.w.tor
	hot := g.N(t.NP) // concentrate on few pieces
	w := []int{5, 5, 2, 0, 0, 0}
	if s.focus == "C24" {
		w = []int{5, 5, 1, g.N(3), g.N(2), g.N(2)}
	}
	if s.focus == "C08" {
		w = []int{2, 6, 1, g.N(2), 0, 0}
		if g.Chance(1, 4) {
			w[4] = 1
		}
	}
	for k := 0; k < n; k++ {
		tg := rt.NewStream("task", g.U64())
		nops := g.Range(1, 12)
		*wg++
		rt.Go(fmt.Sprintf("task%d", k), func() {
			for j := 0; j < nops && !s.w.r.bad(); j++ {
				i := tg.N(t.NP)
				if tg.Chance(1, 2) {
					i = min(t.NP-1, hot+tg.N(2))
				}
				if tg.Chance(1, 4) {
					rt.TimeSleep(rt.Dur(int64(tg.N(2000)) * us))
				}
				switch tg.Weighted(w...) {
				case 0:
					s.read(tg, i)
				case 1:
					s.write(i)
				case 2:
					s.writeBad(tg, i)
				case 3:
					s.move(tg, tg.N(len(t.Files)))
				case 4:
					s.closeFile(tg.N(len(t.Files)))
				case 5:
					s.unknown(tg)
				}
			}
			*wg--
		})
	}
}

func (s *store) prep(g *rt.Stream) {
	fs, t := s.w.host.FS, s.w.tor
	bystanders(g, t, fs)
	genImage(g, t, fs)
	fs.PutDir("/moved")
	fs.Put("/t.torrent", t.Raw)
	if g.Chance(1, 2) {
		fs.LatMax = []int64{100 * us, ms, 20 * ms}[g.N(3)]
	}
	if g.Chance(2, 3) {
		fs.SplitIO = []int{1, 7, 64, 1000, 4096}[g.N(5)]
		if t.Total > 5000 && fs.SplitIO < 64 {
			fs.SplitIO = 512
		}
	}
}

func (r *Run) fileioScenario(focus string) {
	g := r.Gen
	w := r.newWorld()
	mt := 6000
	if g.Chance(1, 4) {
		mt = 60_000
	}
	w.tor = genTor(g, mt)
	s := newStore(w, focus)
	s.prep(g)
	r.drawSched(false)
	r.Sim.MaxSwitch = 3_000_000
	fs := w.host.FS
	phases := g.Range(1, 3)
	done := false
	stage := "opening"
	body := func() {
		if !s.open() {
			return
		}
		for ph := 0; ph < phases && !r.bad(); ph++ {
			n := 0
			stage = "operations"
			if g.Chance(2, 3) {
				s.faults(g)
			}
			s.phase(g, g.Range(1, 5), &n)
			conc := focus == "C24" && ph == phases-1 && g.Chance(1, 2)
			if conc {
				rt.TimeSleep(rt.Dur(int64(g.N(20_000)) * us))
				s.closeAll(true)
			}
			for n > 0 && !r.bad() {
				rt.TimeSleep(rt.Dur(ms))
			}
			fs.Inject = nil
			s.wholeDisk("all operations")
			if conc {
				if of := fs.OpenFiles(); len(of) > 0 && !r.bad() {
					r.Fail("C24", "after closing all files these are still open: %s", strings.Join(of, ", "))
				}
			}
			// what is stored can be read
			stage = "reading back"
			for i := 0; i < w.tor.NP && !r.bad(); i++ {
				if s.acked[i] && (i < 5 || g.Chance(1, 4)) {
					s.read(g, i)
				}
			}
			if ph < phases-1 && focus == "C24" { // closed files can be opened again
				for k, f := range w.tor.Files {
					if s.shut[k] && !s.moved[k] && !r.bad() && g.Chance(2, 3) {
						if e := s.fio.OCAT(w.tor.Local(k), int64(f.Len)); e != nil {
							r.Fail("C24", "opening %s again failed: %v", w.tor.Local(k), e)
						}
						s.closing[k], s.shut[k], s.closes[k] = false, false, 0
					}
				}
			}
		}
		if r.bad() {
			return
		}
		stage = "closing"
		if g.Chance(1, 2) {
			s.faults(g)
		}
		s.closeAll(false)
		fs.Inject = nil
		if focus == "C24" && !r.bad() {
			for k := range w.tor.Files {
				s.closeFile(k)
			}
			for j := 0; j < 4 && !r.bad(); j++ {
				i := g.N(w.tor.NP)
				s.read(g, i)
				was := s.began[i]
				b0 := s.pieceNow(i)
				s.write(i)
				if b0 != s.pieceNow(i) && !r.bad() {
					r.Fail("C24", "writing piece %d after all files were closed changed it", i)
				}
				s.began[i] = was
			}
		}
		s.wholeDisk("closing")
		done = true
	}
	if !w.comp(compLimit, body, func() bool { return done || r.bad() || s.openErr != nil }) && !w.dead() && !r.bad() {
		w.compHung(focus, "file operations never ended ("+stage+")")
	}
	w.compDead(focus)
	if s.openErr != nil && !r.bad() {
		r.Fail(focus, "the torrent's files could not be opened on a working disk: %v", s.openErr)
	}
	r.Count["fileio_runs"]++
	// nobody else's files were touched
	if !r.bad() {
		for _, p := range []string{"/etc/passwd", "/data/unrelated"} {
			if _, ok := fs.Peek(p); !ok {
				r.Fail(focus, "file %s is gone", p)
			}
		}
	}
}

// pieceNow is the present disk content of piece i.
func (s *store) pieceNow(i int) string {
	t := s.w.tor
	var sb strings.Builder
	s.seg(i, func(k, lo, hi int) {
		b, _ := s.w.host.FS.Peek(s.path[k])
		if o := t.Files[k].Off; len(b) >= hi-o {
			sb.Write(b[lo-o : hi-o])
		}
	})
	return sb.String()
}

// ---------------------------------------------------------------- C08

// crashStore: pieces are stored, the process crashes, the client is started on
// what is left, perhaps crashes as well, again and again.
func (r *Run) crashStore() {
	g := r.Gen
	w := r.newWorld()
	mt := 6000
	if g.Chance(1, 4) {
		mt = 60_000
	}
	w.tor = genTor(g, mt)
	t := w.tor
	s := newStore(w, "C08")
	s.prep(g)
	w.startupPrep(g)
	r.drawSched(false)
	fs := w.host.FS
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(w.trackerAnswer(nil))
	stored := t.truth(fs) // pieces that must be found from now on
	settle := func() {
		for k := range t.Files {
			to := []string{s.path[k], s.moveTo[k]}
			home := t.Local(k)
			if _, ok := fs.Peek(home); !ok {
				for _, p := range to {
					if b, ok := fs.Get(p); ok && p != "" && p != home {
						fs.Del(p)
						fs.Put(home, b)
						break
					}
				}
			}
			s.path[k], s.moveTo[k], s.moving[k], s.moved[k] = home, "", false, false
		}
		for i, a := range s.acked {
			if a {
				stored[i] = true
			}
		}
	}
	check := func(what string) {
		tr := t.truth(fs)
		for i := range stored {
			if stored[i] && !tr[i] && !r.bad() {
				r.Fail("C08", "piece %d had been stored and is not complete on disk any more after %s", i, what)
			}
			if tr[i] {
				stored[i] = true // it was recognisable, so it stays so
			}
		}
	}
	rounds := g.Range(1, 4)
	for rd := 0; rd < rounds && !r.bad() && !w.sim.Overrun; rd++ {
		// store pieces
		if rd == 0 || g.Chance(1, 2) {
			no := w.attempts + 1
			done := false
			body := func() {
				if !s.open() {
					return
				}
				n := 0
				f, cnt := r.Fault, 0
				kill := g.Small(60)
				only := []string{"write", "write", "rename", "close", ""}[g.N(5)]
				if g.Chance(1, 5) {
					kill = -1
				}
				errs := g.Chance(1, 3)
				fs.Inject = func(op rt.FSOp) rt.FSFault {
					if kill >= 0 && (only == "" || only == op.Op) {
						cnt++
						if cnt == kill+1 {
							ft := rt.FSFault{Kill: true}
							if op.Op == "write" {
								ft.Part = f.N(op.N + 1)
							}
							return ft
						}
					}
					if errs && op.Op == "write" && f.Chance(1, 8) {
						s.inj++
						s.wfault = true
						return rt.FSFault{Err: diskErrs[f.N(len(diskErrs))], Part: f.N(op.N + 1)}
					}
					return rt.FSFault{}
				}
				if g.Chance(1, 3) {
					w.sim.At(int64(g.Small(3000))*10*us, func() {
						w.host.KillIf("crash", func() bool { return w.attempts == no })
					})
				}
				s.phase(g, g.Range(1, 5), &n)
				for n > 0 && !r.bad() {
					rt.TimeSleep(rt.Dur(ms))
				}
				if g.Chance(1, 3) {
					_ = s.fio.CloseAll()
				}
				done = true
			}
			if !w.comp(compLimit, body, func() bool { return done || r.bad() || s.openErr != nil }) && !w.dead() && !r.bad() {
				w.compHung("C08", "file operations never ended")
			}
			w.compDead("C08")
			if s.openErr != nil && !r.bad() {
				r.Fail("C08", "the torrent's files could not be opened on a working disk: %v", s.openErr)
			}
			if r.bad() || w.sim.Overrun {
				return
			}
			w.clearFaults()
			if !w.dead() {
				w.sim.Stats["fault.crash"]++
				w.host.KillProcess("crash")
			}
			r.Count["store_rounds"]++
			settle()
			check("the crash of the storing process")
		}
		// a restart that may be cut short as well
		for k := g.N(3); k > 0 && !r.bad() && !w.sim.Overrun; k-- {
			what := w.genDiskFaults(g)
			up := w.attempt(what)
			w.clearFaults()
			r.Count["attempts"]++
			if w.sim.Overrun {
				return
			}
			w.attemptCheck("C05,C08", what, up, true)
			if r.bad() {
				return
			}
			if !w.dead() {
				w.host.KillProcess("crash")
				w.sim.Stats["fault.crash"]++
			}
			check("a restart (" + what + ")")
		}
	}
	if r.bad() || w.sim.Overrun {
		return
	}
	up := w.attempt("no faults")
	w.attemptCheck("C05,C08", "no faults", up, false)
	check("the last restart")
	if r.bad() || !up {
		return
	}
	w.have = t.truth(fs)
	w.upCheck(g, "no faults")
}
