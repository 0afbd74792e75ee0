//go:build !nometa

package main

import (
	"fmt"
	"strings"
	"syscall"

	"gotor/bencode"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/info"

	"vsim/rt"
)

func init() {
	plan("C21", "create:C21", 10)
}

func init() { scenarios["create:C21"] = func(r *Run) { r.createScenario() } }

// createScenario: torrent metadata is created from files; C21.
func (r *Run) createScenario() {
	g := r.Gen
	w := r.newWorld()
	fs := w.host.FS
	s := r.Sim
	r.drawSched(false)
	s.MaxSwitch = 3_000_000
	if g.Chance(1, 2) {
		fs.LatMax = []int64{100 * us, ms}[g.N(2)]
	}
	t := genTor(g, []int{3000, 60_000, 200_000}[g.Weighted(5, 4, 1)])
	big := g.Chance(1, 30) // more than the internal buffer
	if big {
		t = genTor(g, 1000)
		n := g.Range(1, 3)
		t.Files = nil
		t.PieceLen = []int{1 << 20, 6 << 20, 5<<20 + 1, 1_000_003, 3 << 20}[g.N(5)]
		for k := 0; k < n; k++ {
			l := g.Range(1<<20, 6<<20)
			if g.Chance(1, 3) {
				l = t.PieceLen * g.Range(1, 2)
			}
			t.Files = append(t.Files, TFile{Path: []string{fmt.Sprintf("f%d", k)}, Len: l})
		}
		t.Single = n == 1
		t.finish(g.U64())
	}
	if t.Single && t.Files[0].Path == nil {
		t.Files[0].Path = []string{t.Name}
	} else if len(t.Files) == 1 { // a list of one file is a single-file torrent
		t.Single = true
		t.Files[0].Path = []string{t.Name}
		t.finish(g.U64())
	}
	if t.Single && g.Chance(1, 4) { // it need not be called as the torrent
		t.Elsewhere = pickS(g, "other", "sub/other", "sub/"+t.Name, "a/b/c")
		t.Files[0].Path = strings.Split(t.Elsewhere, "/")
	}
	pl := t.PieceLen
	if g.Chance(1, 8) && !big && t.Total <= 2000 {
		pl = []int{6 << 20, 1, 5<<20 + 7, 1 << 20, 0, -1, -1 << 40}[g.N(7)]
		if pl > 0 {
			t.PieceLen = pl
			t.finish(g.U64())
		}
	}
	if len(t.Files) > 1 && g.Chance(1, 10) { // only empty files
		for k := range t.Files {
			t.Files[k].Len = 0
		}
		t.finish(1)
	}
	t.putAll(fs)
	bystanders(g, t, fs)
	var paths []string
	for _, f := range t.Files {
		paths = append(paths, strings.Join(f.Path, "/"))
	}
	if g.Chance(1, 2) {
		fs.SplitIO = []int{1, 7, 64, 1000, 4096}[g.N(5)]
		if t.Total > 3000 && fs.SplitIO < 512 {
			fs.SplitIO = 512
		}
		if big {
			fs.SplitIO = 65536
		}
	}
	// faults
	mustFail, what := pl <= 0, "no fault"
	f := r.Fault
	k := g.N(len(t.Files))
	nth, cnt := g.Small(20), 0
	hit := false
	short := g.Chance(1, 2)
	kind := g.N(11)
	switch kind {
	case 0:
		fs.Del(t.Local(k))
		mustFail, what = true, "missing file"
		if g.Chance(1, 3) {
			fs.PutDir(t.Local(k))
			what = "directory instead of a file"
		}
	case 1:
		what = "failing open"
	case 2, 3:
		what = "failing read"
	case 4:
		what = "failing stat"
	case 5:
		what = "failing close"
	}
	er := diskErrs[g.N(len(diskErrs))]
	opened := 0
	var before map[string]string
	var resized *Tor // as the files are since one changed its size
	if kind >= 9 {
		what = "file changing its size"
		if nth = g.N(6); g.Chance(1, 2) {
			nth = g.N(40)
		}
	}
	fs.Inject = func(op rt.FSOp) rt.FSFault {
		mine := op.Path == t.Local(k)
		if op.Op == "open" {
			opened++
		}
		switch {
		case kind >= 9 && !hit:
			if op.Op == "close" || len(t.Files[k].Path) == 0 {
				break
			}
			if cnt++; cnt > nth && (mine || nth%3 == 0) {
				hit = true
				n := g.Small([]int{t.PieceLen + 1, 30}[g.N(2)])
				if g.Chance(1, 2) || t.Files[k].Len == 0 {
					extra := make([]byte, n+1)
					fill(extra, g.U64())
					resized = t.resized(k, 0, extra)
				} else {
					resized = t.resized(k, g.N(t.Files[k].Len), nil)
				}
				nf := resized.Files[k]
				fs.Patch(t.Local(k), resized.Content[nf.Off:nf.Off+nf.Len])
				r.ev("file %d now has %d bytes, it had %d", k, nf.Len, t.Files[k].Len)
				if before != nil {
					before = fs.Snapshot()
				}
			}
		case kind == 1 && op.Op == "open" && mine, kind == 4 && op.Op == "stat" && mine, kind == 5 && op.Op == "close" && mine:
			hit = true
			return rt.FSFault{Err: er}
		case (kind == 2 && mine || kind == 3) && op.Op == "read":
			cnt++
			if cnt == nth+1 {
				hit = true
				ft := rt.FSFault{Err: er}
				if kind == 3 && f.Chance(1, 2) {
					ft.Err = syscall.EIO
				}
				return ft
			}
		}
		if short && op.Op == "read" && op.N > 1 && f.Chance(1, 2) {
			m := op.N - 1
			if t.Total > 20000 {
				return rt.FSFault{Part: m - f.N(min(m, 2000))}
			}
			return rt.FSFault{Part: 1 + f.N(min(m, 700))}
		}
		return rt.FSFault{}
	}
	before = fs.Snapshot()
	if big {
		before = nil
	}
	done := false
	var ti *info.TorInfo
	var err error
	workDir := dataDir
	if g.Chance(1, 4) {
		workDir = dataDir + "/"
	}
	var left []string
	body := func() {
		ti, err = info.CreateTorInfo(paths, workDir, t.Name, int64(pl))
		left = fs.OpenFiles()
		fs.Inject = nil
		r.ev("created: %v", err)
		done = true
	}
	if !w.comp(compLimit, body, func() bool { return done || r.bad() }) && !w.dead() && !r.bad() {
		w.compHung("C21", fmt.Sprintf("creating metadata never ended (%s, %d files, %d bytes, piece length %d)", what, len(paths), t.Total, pl))
	}
	if s.Overrun && !r.bad() {
		r.Fail("C21", "creating metadata never ended (%s, %d files, %d bytes, piece length %d)", what, len(paths), t.Total, pl)
	}
	if w.compDead("C21") || r.bad() {
		return
	}
	r.Count["creations"]++
	// (what a failed operation on a file did not spoil - a read beyond its end, one
	// that was tried again - may go unreported: the metadata then has to be right)
	if len(left) > 0 {
		r.Fail("C21", "creation (%s) ended with %v and left open: %s", what, err, strings.Join(left, ", "))
		return
	}
	if before != nil {
		if m := filesDiff(before, fs.Snapshot()); m != "" {
			r.Fail("C21", "creation changed the disk: %s", m)
			return
		}
	}
	if err != nil && hit {
		r.Count["creations_failed"]++
	}
	if mustFail {
		r.Count["creations_failed"]++
		if err == nil {
			r.Fail("C21", "metadata was created although a file is not there (%s) or the piece length is invalid (%d)", what, pl)
		}
		return
	}
	if err != nil {
		if hit || t.Total == 0 {
			return
		}
		r.Fail("C21", "creation failed without cause (%d files, %d bytes, piece length %d): %v", len(paths), t.Total, pl, err)
		return
	}
	// what the metadata says: the files as they are, or as they were
	after := resized == nil
	if resized != nil && ti.Length() == int64(resized.Total) {
		t, after = resized, true
	}
	got := fmt.Sprintf("name %q, piece length %d, %d pieces, length %d, single %v", ti.Name(), ti.PieceLen(), ti.NumPieces(), ti.Length(), ti.IsSingle())
	want := fmt.Sprintf("name %q, piece length %d, %d pieces, length %d, single %v", t.Name, t.PieceLen, t.NP, t.Total, len(t.Files) == 1)
	if got != want {
		r.Fail("C21", "metadata says %s, the files are %s", got, want)
		return
	}
	if ti.Hashes() != t.Hashes {
		i := 0
		for i < t.NP && len(ti.Hashes()) >= i*20+20 && ti.Hashes()[i*20:i*20+20] == t.Hashes[i*20:i*20+20] {
			i++
		}
		r.Fail("C21", "hash of piece %d is not the content's (%d pieces of %d bytes, %d bytes in %d files)", i, t.NP, t.PieceLen, t.Total, len(t.Files))
		return
	}
	if len(ti.Files()) != len(t.Files) {
		r.Fail("C21", "metadata lists %d files of %d", len(ti.Files()), len(t.Files))
		return
	}
	for k, fe := range ti.Files() {
		if fe.TorPath() != paths[k] || fe.Length() != int64(t.Files[k].Len) {
			r.Fail("C21", "file %d is listed as %q (%d bytes), it is %q (%d bytes)", k, fe.TorPath(), fe.Length(), paths[k], t.Files[k].Len)
			return
		}
	}
	if t.Total == 0 || !after {
		return
	}
	// opening the files with it
	w.host.KillProcess("done")
	done = false
	body2 := func() {
		fio := fileio.NewFileIO(ti)
		if e := fio.OCATAll(ti.Files()); e != nil {
			r.Fail("C21", "the files cannot be opened with the created metadata: %v", e)
			return
		}
		buf := make([]byte, t.PieceLen)
		for i := 0; i < t.NP && !r.bad(); i++ {
			n, e := fio.ReadPiece(int64(i), buf)
			if e != nil || string(buf[:n]) != string(t.Piece(i)) {
				r.Fail("C21", "piece %d is not complete when the files are opened with the created metadata: %v", i, e)
			}
		}
		// as a torrent file for the client
		tor, e := torrent.NewTorrent(ti, "http://tracker.sim:6969/announce")
		if e == nil {
			raw, e2 := bencode.Encode(bencode.Dict{"announce": "http://tracker.sim:6969/announce", "info": ti.Bencode()})
			if e = e2; e == nil {
				fs.Put("/t.torrent", raw)
				t.InfoHash = tor.Infohash()
			}
		}
		if e != nil {
			r.Fail("C21", "no torrent file can be made of the created metadata: %v", e)
		}
		done = true
	}
	if !w.comp(compLimit, body2, func() bool { return done || r.bad() }) && !w.dead() && !r.bad() {
		w.compHung("C21", "opening the files never ended")
	}
	if w.compDead("C21") || r.bad() || big || t.PieceLen > 1<<20 || t.Elsewhere != "" || !g.Chance(1, 3) {
		return
	}
	w.host.KillProcess("done")
	w.tor = t
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(w.trackerAnswer(nil))
	up := w.attempt("with the created torrent")
	w.attemptCheck("C21", "with the created torrent", up, false)
	if r.bad() || !up {
		return
	}
	if len(w.announces) > 0 {
		if v := w.announces[0].query["left"]; len(v) != 1 || v[0] != "0" {
			r.Fail("C21", "the client started with the created torrent lacks %v bytes", v)
		}
	}
	r.Count["creations_started"]++
}

// filesDiff says how the disk changed.
func filesDiff(a, b map[string]string) string {
	for p, o := range a {
		if n, ok := b[p]; !ok {
			return p + " is gone"
		} else if n != o {
			return p + " changed"
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " appeared"
		}
	}
	return ""
}
