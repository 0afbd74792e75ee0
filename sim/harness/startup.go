package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"syscall"

	"vsim/rt"
)

// The "startup" scenarios: the real client is started, again and again, on disks,
// torrents and trackers in every state, with disk faults and crashes on the way.

func init() {
	for _, p := range []string{"C05", "C06"} {
		p := p
		scenarios["startup:"+p] = func(r *Run) { r.startupDisk(p) }
	}
	scenarios["startup:C19"] = func(r *Run) { r.startupTracker() }
}

// ---------------------------------------------------------------- the disk before

// genImage puts the torrent's files on the disk in some state of completion.
func genImage(g *rt.Stream, t *Tor, fs *rt.FS) {
	mode := g.N(4) // 0: every file on its own, 1: all complete, 2: nothing there, 3: as left by an interrupted run
	good := make([]bool, t.NP)
	for i := range good {
		good[i] = g.Chance(1, 2)
	}
	upto := g.N(len(t.Files) + 1)
	for k, f := range t.Files {
		st := g.N(11)
		switch mode {
		case 1:
			st = 0
		case 2:
			st = 1
		case 3: // files before upto at full length, one short, the others missing
			switch {
			case k < upto:
				st = 8
			case k == upto:
				st = 2
			default:
				st = 1
			}
		}
		b := append([]byte(nil), t.Content[f.Off:f.Off+f.Len]...)
		switch st {
		case 0:
		case 1: // missing
			if g.Chance(1, 2) {
				p := t.Local(k)
				fs.PutDir(p[:strings.LastIndexByte(p, '/')])
			}
			continue
		case 2: // short
			b = b[:g.N(len(b)+1)]
		case 3: // short by a little
			b = b[:max(0, len(b)-1-g.N(3))]
		case 4: // too long
			x := make([]byte, 1+g.N(300))
			fill(x, g.U64())
			b = append(b, x...)
		case 5: // corrupted here and there
			for n := g.Range(1, 4); n > 0 && len(b) > 0; n-- {
				b[g.N(len(b))] ^= byte(1 + g.N(255))
			}
		case 6: // zeros
			b = make([]byte, len(b))
		case 7: // empty
			b = nil
		case 8: // some pieces written, zeros elsewhere
			for i := range b {
				if !good[(f.Off+i)/t.PieceLen] {
					b[i] = 0
				}
			}
		case 9: // something else
			b = make([]byte, g.N(2*len(b)+10))
			fill(b, g.U64())
		case 10: // short and damaged
			b = b[:g.N(len(b)+1)]
			if len(b) > 0 {
				b[g.N(len(b))] ^= 1
			}
		}
		fs.Put(t.Local(k), b)
	}
}

// bystanders are files that have nothing to do with the torrent.
func bystanders(g *rt.Stream, t *Tor, fs *rt.FS) {
	put := func(p string) {
		b := make([]byte, g.N(200))
		fill(b, g.U64())
		fs.Put(p, b)
	}
	put("/etc/passwd")
	put("/home/x/file")
	put("/data/unrelated")
	if !t.Single {
		put("/data/" + t.Name + "/other")
		put("/data/" + t.Name + "/d0/other")
		put("/data/f0") // same name, elsewhere
	} else {
		put("/" + t.Name)
	}
	put("/data/" + t.Name + ".part")
	put("/data/" + t.Name + "~")
}

type image map[string]string

// torFiles maps the local path of each torrent file to its declared length.
func (t *Tor) torFiles() map[string]int {
	m := map[string]int{}
	for k, f := range t.Files {
		m[t.Local(k)] = f.Len
	}
	return m
}

// parents are the directories that may be created.
func (t *Tor) parents() map[string]bool {
	m := map[string]bool{}
	for k := range t.Files {
		p := t.Local(k)
		for i, c := range p {
			if c == '/' && i > 0 {
				m[p[:i+1]] = true
			}
		}
	}
	return m
}

// fileKept says how the present bytes of one torrent file violate "never destroy".
func fileKept(p string, old string, existed bool, now []byte, exists bool, decl int) string {
	if existed && !exists {
		return fmt.Sprintf("%s (%d bytes) is gone", p, len(old))
	}
	if !exists {
		return ""
	}
	in := min(len(old), decl)
	if len(now) < in {
		return fmt.Sprintf("%s was cut to %d bytes, it had %d and the torrent declares %d", p, len(now), len(old), decl)
	}
	if string(now[:in]) != old[:in] {
		k := 0
		for old[k] == now[k] {
			k++
		}
		return fmt.Sprintf("byte %d of %s changed from %#x to %#x (%d of %d bytes were there)", k, p, old[k], now[k], len(old), decl)
	}
	if len(now) > max(len(old), decl) {
		return fmt.Sprintf("%s grew to %d bytes, it had %d and the torrent declares %d", p, len(now), len(old), decl)
	}
	if len(now) > len(old) {
		for i := len(old); i < len(now); i++ {
			if now[i] != 0 {
				return fmt.Sprintf("%s was extended with %#x at byte %d, not zero", p, now[i], i)
			}
		}
	} else if len(now) > decl && string(now) != old[:len(now)] {
		return fmt.Sprintf("%s was altered beyond its declared length instead of being cut off there", p)
	}
	return ""
}

// diskDiff compares the whole disk with an earlier image.
func (w *World) diskDiff(before map[string]string) string {
	files, par := w.tor.torFiles(), w.tor.parents()
	now := w.host.FS.Snapshot()
	for p, decl := range files {
		o, was := before[p]
		n, is := now[p]
		if e := fileKept(p, o, was, []byte(n), is, decl); e != "" {
			return e
		}
	}
	for p, o := range before {
		if _, mine := files[p]; mine {
			continue
		}
		n, is := now[p]
		if !is {
			return p + " was removed"
		}
		if n != o {
			return p + " was altered"
		}
	}
	for p := range now {
		if _, was := before[p]; was {
			continue
		}
		if _, mine := files[p]; mine || par[p] {
			continue
		}
		return p + " was created"
	}
	return ""
}

// watchDisk checks after every single disk operation that nothing was destroyed.
func (w *World) watchDisk(props string, before map[string]string) {
	files, par := w.tor.torFiles(), w.tor.parents()
	fs := w.host.FS
	told := false
	fs.Observe = func(op rt.FSOp, e error) {
		if told {
			return
		}
		switch op.Op {
		case "write", "trunc", "create", "rename", "remove", "mkdir", "openw":
		default:
			return
		}
		decl, mine := files[op.Path]
		if !mine {
			if op.Op == "mkdir" && (par[op.Path+"/"]) || e != nil {
				return
			}
			told = true
			w.r.Fail(props+",C20", "startup did %s on %s, which is not one of the torrent's files", op.Op, op.Path)
			return
		}
		o, was := before[op.Path]
		b, is := fs.Peek(op.Path)
		if m := fileKept(op.Path, o, was, b, is, decl); m != "" {
			told = true
			w.r.Fail(props, "after %s at startup: %s", op.Op, m)
		}
	}
}

// ---------------------------------------------------------------- disk faults

var diskErrs = []error{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOSPC, syscall.EROFS, syscall.EPERM, syscall.EDQUOT, syscall.ENOMEM, syscall.ESTALE, syscall.EFBIG}
var diskOps = []string{"openw", "open", "stat", "mkdir", "write", "trunc", "read", "seek", "close", "sync", "rename"}

// genDiskFaults installs a fault plan for one attempt; it returns a description.
func (w *World) genDiskFaults(g *rt.Stream) string {
	fs, s, f := w.host.FS, w.sim, w.r.Fault
	er := diskErrs[g.N(len(diskErrs))]
	nth, n := g.Small(12), 0
	if g.Chance(1, 3) {
		nth = g.N(60)
	}
	cls := diskOps[g.Weighted(4, 2, 3, 2, 5, 3, 3, 1, 1, 1, 1)]
	path := ""
	if len(w.tor.Files) > 0 {
		path = w.tor.Local(g.N(len(w.tor.Files)))
	}
	part := g.N(3) // how much of a transfer happens before it fails
	partOf := func(op rt.FSOp) int {
		if op.Op != "read" && op.Op != "write" {
			return 0
		}
		switch part {
		case 0:
			return 0
		case 1:
			return f.N(op.N + 1)
		}
		return max(0, op.N-1)
	}
	switch g.N(12) {
	case 0:
		return "none"
	case 1: // the nth operation fails
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			n++
			if n == nth+1 {
				return rt.FSFault{Err: er, Part: partOf(op)}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("operation %d fails with %v", nth, er)
	case 2: // the nth operation of a kind
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if op.Op == cls {
				n++
				if n == nth/3+1 {
					return rt.FSFault{Err: er, Part: partOf(op)}
				}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("%s number %d fails with %v", cls, nth/3, er)
	case 3: // a kind of operation always fails
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if op.Op == cls && op.Path != "/t.torrent" {
				return rt.FSFault{Err: er, Part: partOf(op)}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("%s always fails with %v", cls, er)
	case 4: // a file that cannot be worked on
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if op.Path == path && (nth%2 == 0 || op.Op == cls) {
				return rt.FSFault{Err: er, Part: partOf(op)}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("operations on %s fail with %v", path, er)
	case 5: // now and then
		k := g.Range(2, 30)
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if f.Chance(1, k) {
				return rt.FSFault{Err: diskErrs[f.N(len(diskErrs))], Part: partOf(op)}
			}
			if op.Op == "read" && f.Chance(1, 3) {
				return rt.FSFault{Part: 1 + f.N(op.N)}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("one in %d operations fails", k)
	case 6: // disk full
		used := int64(0)
		for _, b := range fs.Snapshot() {
			used += int64(len(b))
		}
		fs.Capacity = used + int64(g.N(w.tor.Total+1))
		return fmt.Sprintf("disk full after %d more bytes", fs.Capacity-used)
	case 7:
		fs.MaxFDs = 1 + g.N(len(w.tor.Files)+1)
		return fmt.Sprintf("at most %d descriptors", fs.MaxFDs)
	case 8, 9: // killed at an operation, perhaps half way through a write
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			if nth%2 == 0 || op.Op == cls || op.Op == "write" {
				n++
				if n == nth/2+1 {
					return rt.FSFault{Kill: true, Part: partOf(op)}
				}
			}
			return rt.FSFault{}
		}
		return fmt.Sprintf("killed at disk operation %d", nth/2)
	case 10: // killed at some time
		no := w.attempts
		s.At(int64(g.Small(4000))*100*us, func() {
			w.host.KillIf("crash", func() bool { return w.attempts == no+1 })
		})
		return "killed at some time"
	case 11: // short reads, and a kill later
		fs.Inject = func(op rt.FSOp) rt.FSFault {
			n++
			if n == nth*3+5 {
				return rt.FSFault{Kill: true, Part: partOf(op)}
			}
			if op.Op == "read" && f.Chance(1, 2) {
				return rt.FSFault{Part: 1 + f.N(op.N)}
			}
			return rt.FSFault{}
		}
		return "short reads, then killed"
	}
	return ""
}

func (w *World) clearFaults() {
	fs := w.host.FS
	fs.Inject, fs.Capacity, fs.MaxFDs = nil, 0, 0
	w.attempts++ // no kill any more
}

// ---------------------------------------------------------------- attempts

// attempt starts the client once and waits until it is up, dead or neither.
func (w *World) attempt(what string, extra ...string) (up bool) {
	r := w.r
	w.host.Crashed, w.host.Exited = false, false
	w.announces, w.dials = nil, nil
	w.attempts++
	r.ev("start of the client: %s", what)
	w.start(w.args(extra...))
	lim := 130 * sec
	if l := w.host.FS.LatMax; l > 0 {
		lim += l * int64(20*w.tor.NP+200)
	}
	r.until(lim, 20*ms, func() bool { return w.listening() || w.dead() || w.sim.Overrun })
	return w.listening() && !w.dead()
}

func (w *World) killed() bool { return w.host.ExitCode == -9 && !w.host.Crashed }

// attemptCheck judges an attempt that did not come up.
func (w *World) attemptCheck(props, what string, wasUp, mayFail bool) {
	r := w.r
	if w.sim.Overrun || wasUp && w.listening() && !w.dead() {
		return
	}
	switch {
	case w.host.Crashed && !cleanPanic(w.host.CrashMsg):
		r.Fail(props, "client crashed at startup (%s): %s", what, w.host.CrashMsg)
		r.Notes = append(r.Notes, w.host.CrashStk)
	case !w.dead():
		r.Fail(props, "client neither came up nor gave up (%s): %s", what, strings.Join(w.host.Goroutines(), "; "))
	case w.host.Exited && w.host.ExitCode == 0 && !w.killed():
		r.Fail(props, "client ended with success although it could not start (%s)", what)
	case !mayFail && !w.killed():
		r.Fail(props, "client refused to start (%s): %s", what, strings.TrimSpace(w.host.ExitMsg+w.host.CrashMsg))
	}
}

// cleanPanic: a panic carrying an ordinary error value is an (ugly) refusal, not a crash.
func cleanPanic(string) bool { return false }

func (w *World) startupPrep(g *rt.Stream) {
	r := w.r
	r.Sim.MaxSwitch = 3_000_000
	w.port = []int{60666, 6881, 1024 + g.N(60000)}[g.N(3)]
	fs := w.host.FS
	if g.Chance(1, 3) {
		fs.LatMax = []int64{us * 100, ms}[g.N(2)]
	}
	if g.Chance(1, 2) {
		fs.SplitIO = []int{7, 64, 1000, 4096}[g.N(4)]
		if w.tor.Total > 5000 && fs.SplitIO < 512 {
			fs.SplitIO = 512
		}
	}
}

// startupDisk: C05 and C06.
func (r *Run) startupDisk(focus string) {
	g := r.Gen
	w := r.newWorld()
	w.tor = genTor(g, 60_000)
	fs := w.host.FS
	bystanders(g, w.tor, fs)
	genImage(g, w.tor, fs)
	fs.Put("/t.torrent", w.tor.Raw)
	w.startupPrep(g)
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(w.trackerAnswer(nil))
	first := fs.Snapshot()
	was := w.tor.truth(fs)

	n := g.N(4)
	if focus == "C06" {
		n = g.Range(1, 5)
	}
	// something is in the way of a file
	if !w.tor.Single && g.Chance(1, 12) {
		k := g.N(len(w.tor.Files))
		p := w.tor.Local(k)
		if g.Chance(1, 2) {
			fs.Del(p)
			fs.PutDir(p)
		} else if d := p[:strings.LastIndexByte(p, '/')]; strings.Count(d, "/") > 2 {
			fs.Del(d)
			fs.Put(d, []byte("in the way"))
		} else {
			fs.Del(p)
			fs.PutDir(p + "/sub")
		}
		first = fs.Snapshot()
		w.watchDisk("C06", first)
		up := w.attempt("something in the way of " + p)
		if up {
			r.Fail("C05", "the client came up although %s cannot be opened", p)
		} else {
			w.attemptCheck("C05", "something in the way of "+p, false, true)
		}
		if m := w.diskDiff(first); m != "" && !r.bad() {
			r.Fail("C06", "startup destroyed data: %s", m)
		}
		return
	}
	r.drawSched(false)
	for i := 0; i < n && !r.bad() && !w.sim.Overrun; i++ {
		before := fs.Snapshot()
		w.watchDisk("C06", before)
		what := w.genDiskFaults(g)
		up := w.attempt(what)
		w.clearFaults()
		r.Count["attempts"]++
		if r.bad() || w.sim.Overrun {
			return
		}
		w.attemptCheck("C05", what, up, true)
		if m := w.diskDiff(before); m != "" && !r.bad() {
			r.Fail("C06", "startup (%s) destroyed data: %s", what, m)
		}
		if r.bad() {
			return
		}
		if up {
			r.Count["attempts_up"]++
			if g.Chance(1, 2) {
				w.have = w.tor.truth(fs)
				w.upCheck(g, what)
			}
			if r.bad() {
				return
			}
			for _, p := range w.peers {
				p.live = false
			}
			w.host.KillProcess("test over")
		}
		w.attempts++
		r.sleep(int64(g.N(3)) * sec)
	}
	// an unharmed start
	before := fs.Snapshot()
	w.watchDisk("C06", before)
	w.have = w.tor.truth(fs)
	up := w.attempt("no faults")
	if r.bad() || w.sim.Overrun {
		return
	}
	w.attemptCheck("C05", "no faults", up, false)
	if m := w.diskDiff(before); m != "" && !r.bad() {
		r.Fail("C06", "startup destroyed data: %s", m)
	}
	for i := range was { // (creation may complete a piece of zeros, so only this direction)
		if was[i] && !w.have[i] && !r.bad() {
			r.Fail("C06", "piece %d was good before the first start and is not any more", i)
		}
	}
	if m := w.diskDiff(first); m != "" && !r.bad() {
		r.Fail("C06", "after %d starts: %s", n+1, m)
	}
	if r.bad() || !up {
		return
	}
	w.have = w.tor.truth(fs)
	w.upCheck(g, "no faults")
}

// upCheck: the client is up; what it says it has and serves is what is on disk.
func (w *World) upCheck(g *rt.Stream, what string) {
	r := w.r
	left := 0
	for i, h := range w.have {
		if !h {
			left += w.tor.PLen(i)
		}
	}
	w.announceCheck(left)
	if r.bad() {
		return
	}
	w.peers = nil
	w.probeServed(g)
	if r.bad() || w.checkAlive("C05") {
		return
	}
	// pieces it does not have are not served
	var miss []int
	for i, h := range w.have {
		if !h {
			miss = append(miss, i)
		}
	}
	if len(miss) > 0 {
		p := w.newPeer("wants")
		p.goodHS = true
		p.script = append(p.script, send(w.goodHandshake(p, g), nil))
		for k := min(len(miss), 3); k > 0; k-- {
			i := miss[g.N(len(miss))]
			n := g.Range(1, min(w.tor.PLen(i), 16384))
			q := breq{uint32(i), uint32(g.N(w.tor.PLen(i) - n + 1)), uint32(n)}
			p.script = append(p.script, send(q.enc(), nil))
		}
		p.script = append(p.script, step{kind: sWait, d: 300 * ms}, step{kind: sReset})
		p.dialIn()
		r.until(30*sec+w.slack(), 20*ms, func() bool { return r.bad() || w.dead() || w.sim.Overrun || p.done })
		w.checkAlive("C05")
	}
}

// announceCheck: exactly one announce, and it is truthful.
func (w *World) announceCheck(left int) {
	r := w.r
	if len(w.announces) == 0 {
		r.Fail("C19", "the client came up without contacting the tracker")
		return
	}
	for _, a := range w.announces {
		one := func(k, want string) {
			if v := a.query[k]; len(v) != 1 || v[0] != want {
				r.Fail("C19", "announce says %s=%q, expected %q", k, v, want)
			}
		}
		one("info_hash", w.tor.InfoHash)
		one("port", fmt.Sprint(w.port))
		one("left", fmt.Sprint(left))
		one("uploaded", "0")
		one("downloaded", "0")
		if v := a.query["peer_id"]; len(v) != 1 || len(v[0]) != 20 {
			r.Fail("C19", "announce carries peer_id %q, not 20 bytes", v)
		}
	}
}

// ---------------------------------------------------------------- trackers

func (r *Run) startupTracker() {
	g := r.Gen
	w := r.newWorld()
	w.tor = genTor(g, 40_000)
	fs := w.host.FS
	bystanders(g, w.tor, fs)
	genImage(g, w.tor, fs)
	w.startupPrep(g)
	kind := g.Weighted(5, 5, 1)
	w.tor.Announce = w.genAnnounceURL(g)
	if kind == 1 && g.Chance(1, 6) {
		w.badAnnounce(g)
		return
	}
	w.tor.render()
	fs.Put("/t.torrent", w.tor.Raw)
	before := fs.Snapshot()
	w.watchDisk("C06,C19", before)
	if g.Chance(1, 2) {
		r.drawSched(false)
	}
	defer func() {
		if m := w.diskDiff(before); m != "" && !r.bad() {
			r.Fail("C06,C19", "startup destroyed data: %s", m)
		}
	}()

	switch kind {
	case 0:
		w.goodTracker(g)
	case 1:
		w.badTracker(g)
	case 2:
		w.oddTracker(g)
	}
}

const trkHost = "tracker.sim"

func (w *World) genAnnounceURL(g *rt.Stream) string {
	base := []string{"http://tracker.sim:6969/announce", "http://tracker.sim/announce", "http://tracker.sim/a/b.php", "http://tracker.sim:80", "http://tracker.sim/"}[g.N(5)]
	if g.Chance(1, 3) && strings.Count(base, "/") > 2 {
		base += []string{"?passkey=abc123", "?k=a%26b&x=1", "?x="}[g.N(3)]
	}
	return base
}

// tracker installs the handler for the announce URL and checks where requests go.
func (w *World) tracker(plan func() rt.HTTPPlan) {
	u := w.tor.Announce
	q := ""
	if i := strings.IndexByte(u, '?'); i >= 0 {
		u, q = u[:i], u[i+1:]
	}
	w.sim.HTTP[trkHost] = func(h *rt.Host, req *http.Request) rt.HTTPPlan {
		w.noteAnnounce(req)
		got := req.URL.Scheme + "://" + req.URL.Host + req.URL.Path
		if got != u && got != u+"/" {
			w.r.Fail("C19", "announce was sent to %s, the torrent says %s", got, u)
		}
		for _, kv := range strings.Split(q, "&") {
			switch kv {
			case "passkey=abc123":
				w.wantParam(req, "passkey", "abc123")
			case "k=a%26b":
				w.wantParam(req, "k", "a&b")
			case "x=1":
				w.wantParam(req, "x", "1")
			}
		}
		if req.Method != "GET" {
			w.r.Fail("C19", "announce uses method %s", req.Method)
		}
		return plan()
	}
}

func (w *World) wantParam(req *http.Request, k, v string) {
	if x := req.URL.Query()[k]; len(x) != 1 || x[0] != v {
		w.r.Fail("C19", "announce has %s=%q, the torrent's announce URL says %q", k, x, v)
	}
}

func (w *World) goodTracker(g *rt.Stream) {
	r := w.r
	fs := w.host.FS
	compact := g.Chance(1, 2)
	n := g.Small(12)
	if g.Chance(1, 10) {
		n = g.Range(40, 70)
	}
	if g.Chance(1, 40) {
		n = g.Range(200, 700)
	}
	var outs []*Peer
	fates, used := map[string]rt.DialFate{}, map[string]bool{}
	var cp []byte
	l := []any{}
	for i := 0; i < n; i++ {
		w.nextIP++
		ip := fmt.Sprintf("%d.%d.%d.%d", 20+g.N(200), g.N(256), w.nextIP/250, 1+w.nextIP%250)
		text := ip
		v6 := !compact && g.Chance(1, 3)
		if v6 {
			ip = fmt.Sprintf("2001:db8:%x::%x", g.N(1000)+1, w.nextIP)
			text = ip
			if g.Chance(1, 2) {
				a := net.ParseIP(ip).To16()
				text = ""
				for k := 0; k < 16; k += 2 {
					text += fmt.Sprintf(":%02x%02x", a[k], a[k+1])
				}
				text = text[1:]
			}
		}
		port := []int{1 + g.N(65535), 65535, 1, 6881, 256}[g.N(5)]
		var at *rt.Host
		if i > 0 && g.Chance(1, 6) { // behind the same address as another
			q := outs[g.N(len(outs))]
			at = q.host
			ip, text = at.IP, at.IP
			for used[net.JoinHostPort(ip, fmt.Sprint(port))] {
				port = port%65535 + 1
			}
		}
		p := &Peer{w: w, name: fmt.Sprintf("out%d", i), announced: map[int]bool{}, annAt: map[int]int64{}, multi: map[breq]int{}, asked: map[int][]bool{}, askedAt: map[int]int64{}, outgoing: true, outPort: port}
		if at != nil {
			p.host = at
		} else {
			p.host = w.sim.NewEnvHost(p.name, net.ParseIP(ip).String())
		}
		p.id = fmt.Sprintf("-XX0001-%012d", i)
		w.peers = append(w.peers, p)
		outs = append(outs, p)
		p.fate = []rt.DialFate{rt.DialOK, rt.DialOK, rt.DialRefused, rt.DialTimeout_}[g.N(4)]
		if n > 100 && g.Chance(4, 5) {
			p.fate = rt.DialRefused
		}
		if p.fate == rt.DialOK {
			p.goodHS = true
			p.script = append(p.script, send(w.goodHandshake(p, g), nil), step{kind: sWait, d: int64(g.N(3)) * sec}, step{kind: sClose})
			p.listenFor(port, nil)
		} else {
			p.done = true
		}
		a := net.JoinHostPort(net.ParseIP(ip).String(), fmt.Sprint(port))
		fates[a], used[a] = p.fate, true
		if compact {
			cp = append(cp, net.ParseIP(ip).To4()...)
			cp = binary.BigEndian.AppendUint16(cp, uint16(port))
		} else {
			l = append(l, bdict{"ip": text, "port": port, "peer id": p.id})
		}
	}
	r.Sim.DialFate = func(h *rt.Host, addr string) rt.DialFate {
		ho, po, e := net.SplitHostPort(addr)
		if e == nil && net.ParseIP(ho) != nil {
			addr = net.JoinHostPort(net.ParseIP(ho).String(), po)
		}
		return fates[addr]
	}
	d := bdict{"interval": g.N(4000), "complete": g.N(100), "incomplete": g.N(100)}
	if compact {
		d["peers"] = string(cp)
	} else {
		d["peers"] = l
	}
	if g.Chance(1, 3) {
		d["min interval"] = g.N(100)
	}
	if g.Chance(1, 3) {
		d["warning message"] = "mind the gap"
	}
	if g.Chance(1, 3) {
		d["tracker id"] = "xyz"
	}
	if g.Chance(1, 4) {
		d["unknown key"] = []any{1, "x", bdict{"a": 2}}
	}
	body := []byte(benc(d))
	pl := rt.HTTPPlan{Delay: int64(g.N(5000)) * ms, Body: body}
	if g.Chance(1, 3) {
		pl.Chunk = 1 + g.N(40)
		pl.ChunkGap = int64(g.N(20)) * ms
		if int64(len(body)/pl.Chunk)*pl.ChunkGap > 5*sec {
			pl.ChunkGap = 0
		}
	}
	w.tracker(func() rt.HTTPPlan { return pl })
	up := w.attempt("good tracker")
	if r.bad() || w.sim.Overrun {
		return
	}
	w.attemptCheck("C19", "good tracker answering "+trunc(fmt.Sprintf("%q", body), 200), up, false)
	if r.bad() || !up {
		return
	}
	w.have = w.tor.truth(fs)
	left := 0
	for i, h := range w.have {
		if !h {
			left += w.tor.PLen(i)
		}
	}
	w.announceCheck(left)
	if r.bad() {
		return
	}
	r.until(30*sec+w.slack(), 20*ms, func() bool {
		got := map[string]bool{}
		for _, x := range w.dials {
			got[canonAddr(x)] = true
		}
		return len(got) >= len(fates) || r.bad() || w.dead() || w.sim.Overrun
	})
	if r.bad() || w.sim.Overrun || w.checkAlive("C19") {
		return
	}
	got := map[string]int{}
	for _, x := range w.dials {
		a := canonAddr(x)
		got[a]++
		if _, ok := fates[a]; !ok {
			r.Fail("C19,C17", "the client dialed %s, which the tracker did not name", x)
			return
		}
	}
	for _, p := range outs {
		a := net.JoinHostPort(p.host.IP, fmt.Sprint(p.outPort))
		if got[a] == 0 {
			r.Fail("C19,C17", "peer %s named by the tracker was not contacted within 30s (dialed: %v)", a, w.dials)
			return
		}
	}
	w.waitDone(100*sec + w.slack())
	if r.bad() || w.checkAlive("C19") {
		return
	}
	w.probeServed(g)
	w.checkAlive("C19")
}

func canonAddr(a string) string {
	if h, p, e := net.SplitHostPort(a); e == nil && net.ParseIP(h) != nil {
		return net.JoinHostPort(net.ParseIP(h).String(), p)
	}
	return a
}

// refused: the client must give up with an error in bounded time, nothing dialed.
func (w *World) refused(props, what string) {
	r := w.r
	up := w.attempt(what)
	if r.bad() || w.sim.Overrun {
		return
	}
	if up {
		r.Fail(props, "the client came up: %s", what)
		return
	}
	w.attemptCheck(props, what, false, true)
	if len(w.dials) > 0 {
		r.Fail(props, "the client dialed %v: %s", w.dials, what)
	}
}

func (w *World) badTracker(g *rt.Stream) {
	okBody := benc(bdict{"interval": 1800, "complete": 1, "incomplete": 0, "peers": ""})
	pl := rt.HTTPPlan{Delay: int64(g.N(3000)) * ms}
	if g.Chance(1, 3) {
		pl.Chunk = 1 + g.N(20)
	}
	what := ""
	dict := func(d bdict) {
		b := bdict{"interval": 1800, "complete": 1, "incomplete": 0, "peers": ""}
		for k, v := range d {
			b[k] = v
		}
		pl.Body = []byte(benc(b))
	}
	switch g.N(15) {
	case 0:
		pl.Err = &net.OpError{Op: "dial", Net: "tcp", Err: []error{syscall.ECONNREFUSED, syscall.EHOSTUNREACH, syscall.ENETUNREACH, syscall.ECONNRESET}[g.N(4)]}
		what = "tracker connection fails"
	case 1:
		pl.Err = errors.New("EOF")
		what = "tracker closes the connection without an answer"
	case 2:
		pl.Stall = true
		what = "tracker never answers"
	case 3:
		b := make([]byte, g.Small(400))
		fill(b, g.U64())
		if len(b) > 0 && strings.IndexByte("dli0123456789-", b[0]) >= 0 {
			b[0] = '<'
		}
		pl.Body = b
		pl.Status = []int{200, 404, 500, 302, 204}[g.N(5)]
		what = "tracker answers garbage"
	case 4:
		pl.Body = []byte("<html><body>404 Not Found</body></html>")
		pl.Status = []int{200, 404, 503}[g.N(3)]
		what = "tracker answers a web page"
	case 5:
		pl.Body = []byte(okBody[:g.N(len(okBody))])
		what = "tracker answers cut-off bencoding"
	case 6:
		pl.Body = []byte([]string{"i5e", "le", "4:spam", "l4:spame", "0:", "i-1e"}[g.N(6)])
		what = "tracker answers something other than a dictionary"
	case 7:
		d := bdict{"failure reason": []string{"torrent not registered", "", "no"}[g.N(3)]}
		if g.Chance(1, 2) {
			d["interval"], d["complete"], d["incomplete"], d["peers"] = 1800, 0, 0, ""
		}
		pl.Body = []byte(benc(d))
		what = "tracker answers with a failure reason"
	case 8:
		n := g.Range(1, 40)
		if n%6 == 0 {
			n++
		}
		dict(bdict{"peers": strings.Repeat("\x01", n)})
		what = fmt.Sprintf("tracker answers with %d bytes of compact peers", n)
	case 9:
		dict(bdict{"peers": 7})
		what = "tracker answers with a number as peers"
	case 10:
		dict(bdict{"peers": []any{[]any{7, "x", []any{}}[g.N(3)]}})
		what = "tracker answers with peers that are no dictionaries"
	case 11:
		pl.Body = []byte(okBody)
		pl.BreakAt = 1 + g.N(len(okBody)-1)
		what = "connection to the tracker breaks in the answer"
	case 12:
		pl.Body = []byte(okBody)
		pl.StallAt = 1 + g.N(len(okBody)-1)
		what = "tracker stops in the middle of its answer"
	case 13:
		pl.Body = []byte("d8:intervali1800e5:peers100000000:")
		pl.Endless = true
		what = "tracker's answer never ends"
	case 14:
		what = "tracker's name does not resolve"
		w.sim.HTTP = map[string]rt.HTTPHandler{}
		w.refused("C19", what)
		return
	}
	w.tracker(func() rt.HTTPPlan { return pl })
	w.refused("C19", what)
}

// badAnnounce: announce URLs that cannot be used.
func (w *World) badAnnounce(g *rt.Stream) {
	fs := w.host.FS
	w.tor.Announce = []string{"udp://tracker.sim:6969", "", "://", "http://", "http://\x7f\x01/", "http://tracker.sim:99999999/", "ftp://tracker.sim/", "tracker.sim/announce", "http://[::1/announce", "%zz", "http://other.sim/announce", "wss://tracker.sim"}[g.N(12)]
	w.tor.render()
	fs.Put("/t.torrent", w.tor.Raw)
	before := fs.Snapshot()
	w.watchDisk("C06,C19", before)
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(w.trackerAnswer(nil))
	if strings.Contains(w.tor.Announce, "99999999") {
		w.sim.HTTP = map[string]rt.HTTPHandler{}
	}
	w.refused("C19", fmt.Sprintf("announce URL %q", w.tor.Announce))
	if m := w.diskDiff(before); m != "" && !w.r.bad() {
		w.r.Fail("C06,C19", "startup destroyed data: %s", m)
	}
}

// oddTracker: answers that may be accepted or refused, but nothing worse.
func (w *World) oddTracker(g *rt.Stream) {
	b := bdict{"interval": 1800, "complete": 1, "incomplete": 0, "peers": ""}
	pl := rt.HTTPPlan{Delay: int64(g.N(3000)) * ms}
	switch g.N(7) {
	case 0:
		delete(b, []string{"interval", "complete", "incomplete", "peers"}[g.N(4)])
	case 1:
		pl.Status = []int{500, 404, 302, 206}[g.N(4)]
	case 2:
		d := bdict{"ip": "10.9.9.9", "port": 1, "peer id": "-XX0001-000000000000"}
		delete(d, []string{"ip", "port", "peer id"}[g.N(3)])
		b["peers"] = []any{d}
	case 3:
		b["interval"] = []any{"soon", -5, []any{}}[g.N(3)]
	case 4:
		b["peers"] = []any{bdict{"ip": []string{"not an ip", "", "tracker.sim", "1.2.3"}[g.N(4)], "port": 1, "peer id": "-XX0001-000000000000"}}
	case 5:
		b["peers"] = []any{bdict{"ip": "10.9.9.9", "port": []int{0, -1, 65536, 1 << 40}[g.N(4)], "peer id": "x"}}
	case 6:
	}
	pl.Body = []byte(benc(b))
	if g.Chance(1, 4) {
		pl.Body = append(pl.Body, "\r\n"...)
	}
	w.tracker(func() rt.HTTPPlan { return pl })
	what := trunc(fmt.Sprintf("odd tracker answer %q status %d", pl.Body, pl.Status), 200)
	up := w.attempt(what)
	if w.r.bad() || w.sim.Overrun {
		return
	}
	w.attemptCheck("C19", what, up, true)
	if up && !w.r.bad() {
		w.have = w.tor.truth(w.host.FS)
		w.probeServed(g)
		w.checkAlive("C19")
	}
}
