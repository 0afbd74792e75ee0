package main

import (
	"fmt"
	"path"
	"strings"
	"syscall"

	"vsim/rt"
)

// "startup:C20": the real client is started on torrent files of every kind, good,
// malformed, damaged and malicious; every disk operation is watched.

func init() {
	scenarios["startup:C20"] = func(r *Run) { r.startupTorrent() }
}

// ---- a lenient bencoding reader: it accepts at least what any sane one does

type lval struct {
	kind byte // d l s i
	s    string
	l    []lval
	keys []string // d: keys, in order, with values in l
	dup  bool
}

func ldec(b []byte) (v lval, ok bool) {
	pos, n := 0, 0
	var rec func(depth int) (lval, bool)
	rec = func(depth int) (lval, bool) {
		n++
		if pos >= len(b) || depth > 50000 || n > 1<<20 {
			return lval{}, false
		}
		c := b[pos]
		switch {
		case c == 'i':
			pos++
			st := pos
			for pos < len(b) && b[pos] != 'e' {
				if strings.IndexByte("+-0123456789_ ", b[pos]) < 0 {
					return lval{}, false
				}
				pos++
			}
			if pos >= len(b) {
				return lval{}, false
			}
			s := string(b[st:pos])
			pos++
			return lval{kind: 'i', s: s}, true
		case c == 'l' || c == 'd':
			pos++
			v := lval{kind: c}
			for pos < len(b) && b[pos] != 'e' {
				if c == 'd' {
					k, ok := rec(depth + 1)
					if !ok {
						return v, false
					}
					for _, o := range v.keys {
						v.dup = v.dup || o == k.s
					}
					v.keys = append(v.keys, k.s)
				}
				x, ok := rec(depth + 1)
				if !ok {
					return v, false
				}
				v.dup = v.dup || x.dup
				v.l = append(v.l, x)
			}
			if pos >= len(b) {
				return v, false
			}
			pos++
			return v, true
		default:
			k := 0
			st := pos
			for pos < len(b) && b[pos] != ':' {
				if b[pos] < '0' || b[pos] > '9' {
					if !(pos == st && b[pos] == '+') {
						return lval{}, false
					}
				} else {
					k = k*10 + int(b[pos]-'0')
					if k > 1<<30 {
						return lval{}, false
					}
				}
				pos++
			}
			if pos >= len(b) || st == pos || pos+1+k > len(b) {
				return lval{}, false
			}
			s := string(b[pos+1 : pos+1+k])
			pos += 1 + k
			return lval{kind: 's', s: s}, true
		}
	}
	return rec(0)
}

func (v lval) get(k string) (lval, bool) {
	if v.kind != 'd' {
		return lval{}, false
	}
	for i, x := range v.keys {
		if x == k {
			return v.l[i], true
		}
	}
	return lval{}, false
}

// allowedPaths are the files a torrent declares beneath the download directory;
// loose is set if that cannot be said exactly, ok is false if it declares none.
func allowedPaths(raw []byte) (m map[string]bool, loose, ok bool) {
	v, good := ldec(raw)
	if !good {
		return nil, false, false
	}
	m = map[string]bool{}
	in, has := v.get("info")
	if !has {
		return nil, v.dup, false
	}
	nm, has := in.get("name")
	if !has || nm.kind != 's' {
		return nil, v.dup, false
	}
	add := func(p string) {
		if strings.HasPrefix(p, dataDir+"/") {
			m[p] = true
		}
	}
	if fl, has := in.get("files"); has && fl.kind == 'l' {
		for _, e := range fl.l {
			p, has := e.get("path")
			if !has || p.kind != 'l' {
				continue
			}
			s := path.Join(dataDir, nm.s)
			for _, c := range p.l {
				s += "/" + c.s
			}
			add(path.Clean(s))
		}
	}
	if _, has := in.get("length"); has {
		add(path.Join(dataDir, nm.s))
	}
	return m, v.dup, len(m) > 0
}

// ---- the scenario

func (r *Run) startupTorrent() {
	g := r.Gen
	w := r.newWorld()
	w.tor = genTor(g, 20_000)
	fs := w.host.FS
	w.startupPrep(g)
	w.sim.HTTP["tracker.sim"] = rt.HTTPHandler(w.trackerAnswer(nil))
	fs.Capacity = 64 << 20
	if g.Chance(1, 2) {
		genImage(g, w.tor, fs)
	}
	raw, refuse, what := w.genTorrentFile(g)
	bystanders(g, w.tor, fs)
	fs.Put("/t.torrent", raw)
	args := []string{}
	infoCmd := g.Chance(1, 8)
	if infoCmd {
		args = append(args, "-cmd", "info")
	}
	if g.Chance(1, 30) { // the torrent file itself cannot be read
		refuse, what = true, "the torrent file cannot be read"
		switch g.N(3) {
		case 0:
			fs.Del("/t.torrent")
		case 1:
			fs.Del("/t.torrent")
			fs.PutDir("/t.torrent")
		case 2:
			k, n := g.N(3), 0
			fs.Inject = func(op rt.FSOp) rt.FSFault {
				if op.Path == "/t.torrent" && op.Op != "close" {
					if n++; n > k {
						return rt.FSFault{Err: syscall.EIO}
					}
				}
				return rt.FSFault{}
			}
			refuse = false
		}
	}
	allowed, loose, ok := allowedPaths(raw)
	if !ok && !loose {
		allowed = map[string]bool{}
	}
	dirs := map[string]bool{dataDir: true}
	for p := range allowed {
		for d := path.Dir(p); len(d) > len(dataDir); d = path.Dir(d) {
			dirs[d] = true
		}
	}
	told := false
	fs.Observe = func(op rt.FSOp, e error) {
		if told || e != nil {
			return
		}
		switch op.Op {
		case "write", "trunc", "create", "rename", "remove", "mkdir", "openw":
		default:
			return
		}
		bad := ""
		switch {
		case infoCmd:
			bad = "printing the torrent's description did"
		case refuse:
			bad = "although its metadata is unacceptable, starting the torrent did"
		case op.Op == "mkdir" && dirs[op.Path]:
		case op.Op == "mkdir" && loose && strings.HasPrefix(op.Path, dataDir+"/"):
		case op.Op != "mkdir" && allowed[op.Path]:
		case op.Op != "mkdir" && loose && strings.HasPrefix(op.Path, dataDir+"/"):
		default:
			bad = "outside of the torrent's declared files, startup did"
		}
		if bad != "" {
			told = true
			r.Fail("C20", "%s %s on %q (%s)", bad, op.Op, op.Path, what)
		}
	}
	before := fs.Snapshot()
	up := w.attempt(what, args...)
	if r.bad() || w.sim.Overrun {
		return
	}
	r.Count[map[bool]string{true: "torrents_refused", false: "torrents_accepted"}[!up]]++
	switch {
	case w.host.Crashed:
		r.Fail("C20", "client crashed on a torrent file (%s): %s", what, w.host.CrashMsg)
		r.Notes = append(r.Notes, w.host.CrashStk)
		return
	case !up && !w.dead():
		r.Fail("C20", "client neither came up nor gave up on a torrent file (%s): %s", what, strings.Join(w.host.Goroutines(), "; "))
		return
	case up && refuse:
		r.Fail("C20", "client came up with unacceptable metadata (%s)", what)
		return
	case refuse && w.host.ExitCode == 0:
		r.Fail("C20", "client ended without an error on unacceptable metadata (%s)", what)
		return
	case !up && what == "valid" && !infoCmd && fs.Inject == nil:
		r.Fail("C20,C05", "client refused a valid torrent: %s", strings.TrimSpace(w.host.ExitMsg))
		return
	}
	// nothing else changed
	now := fs.Snapshot()
	for p, o := range before {
		n, is := now[p]
		if (!is || n != o) && !allowed[p] && !(loose && strings.HasPrefix(p, dataDir+"/")) {
			r.Fail("C20", "%s was changed or removed (%s)", p, what)
			return
		}
	}
	if up && what == "valid" {
		w.have = w.tor.truth(fs)
		for p, n := range w.tor.torFiles() {
			if b, is := now[p]; !is || len(b) != n {
				r.Fail("C20,C05", "declared file %s is not there with its length %d", p, n)
				return
			}
		}
		w.probeServed(g)
		w.checkAlive("C20")
	}
}

// genTorrentFile draws a torrent file; refuse says that the client must not accept it.
func (w *World) genTorrentFile(g *rt.Stream) (raw []byte, refuse bool, what string) {
	t := w.tor
	in := t.info()
	top := bdict{"announce": t.Announce, "creation date": 1234567}
	done := func(ref bool, f string, a ...any) ([]byte, bool, string) {
		if _, set := top["info"]; !set {
			top["info"] = braw(benc(in))
		}
		return []byte(benc(top)), ref, fmt.Sprintf(f, a...)
	}
	del := func(d bdict, k string) { delete(d, k) }
	files := func() []any { l, _ := in["files"].([]any); return l }
	multi := func(paths ...[]any) { // replace the files by these, spreading the content
		del(in, "length")
		l := []any{}
		left := t.Total
		for i, p := range paths {
			n := left / (len(paths) - i)
			l = append(l, bdict{"length": n, "path": p})
			left -= n
		}
		in["files"] = l
	}
	oddInt := func() any {
		return []any{0, -1, -5, 1 << 40, int64(1) << 62, int64(-1) << 62, braw("i99999999999999999999e"), braw("i-99999999999999999999e")}[g.N(8)]
	}
	other := func() any { return []any{7, "x", []any{}, bdict{}, []any{"x"}, ""}[g.N(6)] }
	switch g.Weighted(4, 3, 3, 2, 2, 3, 5, 3, 4, 4, 3, 2, 2, 1) {
	case 0: // valid, with unusual names
		if g.Chance(1, 2) {
			nm := pickS(g, "..a", "a..", "...", ".hidden", "a b", "\xc3\xbcn\xc3\xaf", "a\\b", "~", "-rf", "a:b", "CON", "x.torrent", strings.Repeat("n", 200))
			if t.Single || g.Chance(1, 2) {
				t.Name = nm
			} else {
				k := g.N(len(t.Files))
				p := t.Files[k].Path
				p[len(p)-1] = nm
			}
			if g.Chance(1, 4) && !t.Single {
				k := g.N(len(t.Files))
				t.Files[k].Path = append([]string{"d0", "d1", "d0", "x", ".y", "..z"}, t.Files[k].Path[len(t.Files[k].Path)-1])
			}
		}
		t.render()
		return t.Raw, false, "valid"
	case 1: // something is missing
		switch g.N(5) {
		case 0:
			top["info"] = braw(benc(in))
			del(top, "info")
			return []byte(benc(top)), true, "no info dictionary"
		case 1:
			k := pickS(g, "name", "piece length", "pieces")
			del(in, k)
			return done(true, "no %s", k)
		case 2:
			del(in, "length")
			del(in, "files")
			return done(true, "neither length nor files")
		case 3:
			if l := files(); len(l) > 0 {
				k := pickS(g, "length", "path")
				if g.Chance(1, 2) { // of an empty file, so that all else fits
					e := bdict{"length": 0, "path": []any{"empty"}}
					j := g.N(len(l) + 1)
					in["files"] = append(append(append([]any(nil), l[:j]...), e), l[j:]...)
					del(e, k)
					return done(true, "an empty file without %s", k)
				}
				del(l[g.N(len(l))].(bdict), k)
				return done(true, "a file without %s", k)
			}
			del(in, "length")
			return done(true, "no length")
		default:
			del(top, "announce")
			return done(false, "no announce")
		}
	case 2: // wrong types
		k := pickS(g, "name", "piece length", "pieces", "length", "files")
		v := other()
		_, s := v.(string)
		_, n := v.(int)
		bad := true
		switch k {
		case "name":
			bad = !s
		case "piece length":
			bad = !n
		case "pieces":
			bad = true
		case "length":
			if !t.Single {
				return done(false, "ok")
			}
			bad = !n
		case "files":
			del(in, "length")
			_, isl := v.([]any)
			bad = !isl
			if l, _ := v.([]any); len(l) > 0 {
				bad = true
			}
		}
		if n && k != "name" && k != "pieces" && k != "files" { // a number where one belongs, but another one
			bad = false
		}
		in[k] = v
		return done(bad, "%s is %q", k, benc(v))
	case 3: // file entries of wrong types
		multi([]any{"a"}, []any{"b"})
		l := files()
		e := l[g.N(2)].(bdict)
		switch g.N(4) {
		case 0:
			e["path"] = []any{7, "x", bdict{}}[g.N(3)]
		case 1:
			e["path"] = []any{"a", []any{7, []any{}, bdict{}}[g.N(3)]}
		case 2:
			if g.Chance(1, 2) { // of an empty file
				e = bdict{"path": []any{"e"}}
				in["files"] = append(l, e)
			}
			e["length"] = []any{"x", []any{}, bdict{}, "0", "", braw("i-0e")}[g.N(6)]
			if e["length"] == braw("i-0e") {
				return done(false, "a length of -0")
			}
		case 3:
			l[g.N(2)] = []any{7, "x", []any{}}[g.N(3)]
		}
		return done(true, "file entry of wrong type")
	case 4: // info or the whole of another type
		if g.Chance(1, 2) {
			v := []any{7, "x", []any{}, []any{in}}[g.N(4)]
			top["info"] = v
			return done(true, "info is not a dictionary")
		}
		return []byte([]string{"i5e", "le", "4:spam", "l" + benc(top) + "e", "", "\n", "de", "d", "e", "x", "0:"}[g.N(11)]), true, "torrent file without a dictionary to use"
	case 5: // hashes do not fit
		h := t.Hashes
		switch g.N(5) {
		case 0:
			h += h[:20]
		case 1:
			h = h[:len(h)-20]
		case 2:
			h += "x"
		case 3:
			h = h[:len(h)-1-g.N(19)]
		case 4:
			h = ""
		}
		in["pieces"] = h
		return done(true, "%d bytes of hashes for %d pieces", len(h), t.NP)
	case 6: // numbers out of range
		v := oddInt()
		switch g.N(3) {
		case 0:
			in["piece length"] = v
			if i, ok := v.(int); ok && i > t.PieceLen && t.NP == 1 {
				return done(false, "piece length is huge")
			}
			if i, ok := v.(int64); ok && i > 0 && t.NP == 1 {
				return done(false, "piece length is huge")
			}
			if b, ok := v.(braw); ok && b[1] != '-' && t.NP == 1 {
				return done(false, "piece length is huge")
			}
			return done(true, "piece length is %v", v)
		case 1:
			if t.Single {
				in["length"] = v
				return done(true, "length is %v", v)
			}
			l := files()
			e := l[g.N(len(l))].(bdict)
			same := e["length"] == v
			e["length"] = v
			if v == 0 {
				return done(false, "a length of 0")
			}
			return done(!same, "a file's length is %v", v)
		default: // lengths whose sum overflows to the right value
			multi([]any{"a"}, []any{"b"}, []any{"c"})
			l := files()
			big := int64(1)<<62 + int64(g.N(1000))
			switch g.N(3) {
			case 0:
				l[0].(bdict)["length"] = big
				l[1].(bdict)["length"] = -big
			case 1:
				l[0].(bdict)["length"] = int64(1<<63 - 1)
				l[1].(bdict)["length"] = int64(1<<63 - 1)
				l[2].(bdict)["length"] = int64(t.Total + 2)
			case 2:
				l[0].(bdict)["length"] = int64(-int64(t.Total))
				l[1].(bdict)["length"] = int64(2 * t.Total)
				l[2].(bdict)["length"] = int64(0)
			}
			return done(true, "lengths whose sum overflows or that are negative")
		}
	case 7: // names that lead outside, single file
		del(in, "files")
		in["length"] = t.Total
		nm := pickS(g, "..", "../x", "../../etc/passwd", "a/../../x", "../data2/x", "./../x", "a/b/../../../x", "/../x", "../etc/passwd", "../home/x/file", "../t.torrent", "..//x")
		in["name"] = nm
		return done(true, "name %q", nm)
	case 8: // paths that lead outside, several files
		bad := [][]any{{"..", "..", "x"}, {"../../x"}, {"a", "..", "..", "..", "x"}, {"..", "..", "etc", "passwd"}, {"../../etc/passwd"}, {"../../home/x/file"}, {"a/../../../x"}, {"..", "../x"}, {"..", "..", "t.torrent"}, {"../..", "x"}, {"", "..", "", "..", "x"}}[g.N(11)]
		ok1, ok2 := []any{"a"}, []any{"b", "c"}
		switch g.N(4) {
		case 0:
			multi(bad)
		case 1:
			multi(ok1, bad)
		case 2:
			multi(bad, ok1)
		case 3:
			multi(ok1, ok2, bad)
		}
		if g.Chance(1, 3) { // an empty one, easily overlooked
			l := files()
			for i := range l {
				if e := l[i].(bdict); fmt.Sprint(e["path"]) == fmt.Sprint(bad) {
					n := e["length"].(int)
					e["length"] = 0
					if len(l) == 1 {
						l = append(l, bdict{"length": n, "path": []any{"z"}})
					} else {
						o := l[(i+1)%len(l)].(bdict)
						o["length"] = o["length"].(int) + n
					}
				}
			}
			in["files"] = l
		}
		if g.Chance(1, 4) { // out by the name
			in["name"] = pickS(g, "..", "../..", "a/../..", "../x")
			multi([]any{"x"}, []any{"y", "z"})
			return done(true, "name %q with several files", in["name"])
		}
		return done(true, "path %q", bad)
	case 9: // odd but arguable names
		switch g.N(6) {
		case 0:
			del(in, "files")
			in["length"] = t.Total
			in["name"] = pickS(g, "", ".", "/", "a/b", "/etc/passwd", "./a", "a//b", "a/../b", "x\x00y", strings.Repeat("n", 300), "a/")
			if in["name"] == "x\x00y" {
				return done(true, "a name no file can have")
			}
		case 1:
			k := g.N(10)
			if g.Chance(1, 10) { // no such file can be, another one could be created before
				multi([]any{"zz"}, [][]any{{"x\x00y"}, {"a", "\x00"}, {"a\x00", "b"}}[g.N(3)])
				return done(true, "a name no file can have")
			}
			multi([][]any{{"a", "..", "b"}, {"."}, {""}, {"a", "", "b"}, {"/etc/passwd"}, {"..", "b"}, {"x\x00y"}, {"a/b"}, {"./c"}, {strings.Repeat("n", 300)}}[k], []any{"zz"})
			if k == 1 || k == 2 {
				return done(true, "a file whose path is that of its directory")
			}
		case 2: // twice the same
			switch g.N(4) {
			case 0:
				multi([]any{"a"}, []any{"a"})
			case 1:
				multi([]any{"a"}, []any{"b"}, []any{"a"})
			case 2:
				multi([]any{"b", "c"}, []any{"a"}, []any{"x", "b"}, []any{"b", "c"}, []any{"d"})
			case 3: // of different spelling
				multi([]any{"a", "b"}, []any{"c"}, []any{"a/b"})
				return done(false, "a file named twice, differently")
			}
			return done(true, "a file named twice")
		case 3: // a file that is another one's directory
			if g.Chance(1, 2) {
				multi([]any{"a"}, []any{"a", "b"})
			} else {
				multi([]any{"a", "b"}, []any{"c"}, []any{"a"})
			}
			return done(true, "a file that is another one's directory")
		case 4:
			multi([]any{"a"}, []any{"b", "..", "a"})
		case 5:
			l := []any{}
			for i := 0; i < 5000; i++ {
				l = append(l, "d")
			}
			multi([]any{"a"}, l)
		}
		return done(false, "odd names %q", trunc(fmt.Sprint(in["name"], in["files"]), 150))
	case 10: // an empty path
		multi([]any{"a"}, []any{})
		return done(true, "an empty path")
	case 11: // cut off, or garbage in between
		t.render()
		b := append([]byte(nil), t.Raw...)
		switch g.N(5) {
		case 0:
			return b[:g.N(len(b))], true, "cut off"
		case 1:
			n := g.Range(1, 1000000)
			c := pickS(g, "l", "d1:a", "li1el", "d")
			return []byte(strings.Repeat(c, n/len(c)+1)), true, "endless nesting"
		case 2:
			return []byte(pickS(g, "99999999999999999999:x", "-5:hello", "18446744073709551615:x", "9223372036854775807:x", "d4:info9223372036854775807:", "d4:info-1:e", "i", "i-", "i5", "d4:infoi5", "l4:", "1", "1:", "d4:info")), true, "broken bencoding"
		case 3:
			x := make([]byte, g.Small(3000))
			fill(x, g.U64())
			if _, ok := ldec(x); ok {
				return nil, true, "empty"
			}
			return x, true, "random bytes"
		default:
			return append(b, pickS(g, "\n", "x", "de", "0:")...), false, "something after the dictionary"
		}
	case 13: // further keys, which some clients go by, that lead outside
		out := pickS(g, "..", "../x", "../../etc/passwd", "/etc/passwd", "a/../../../x", "../t.torrent")
		var parts []any
		for _, s := range strings.Split(out, "/") {
			parts = append(parts, s)
		}
		in["name.utf-8"] = out
		in["path.utf-8"] = parts
		in["path"] = parts
		in["publisher"] = out
		for i, e := range files() {
			if d := e.(bdict); i == 0 || g.Chance(1, 2) {
				if p := d["path"].([]any); len(p) < len(parts) || g.Chance(1, 2) { // one token, so that there are as many
					l := append([]any(nil), p...)
					l[len(l)-1] = "../../../" + fmt.Sprint(l[len(l)-1])
					d["path.utf-8"] = l
				} else {
					d["path.utf-8"] = parts
				}
				d["name"] = out
				d["symlink path"] = parts
				d["attr"] = pickS(g, "l", "x", "p")
			}
		}
		return done(false, "further keys that lead to %q", out)
	default: // damaged
		t.render()
		b := append([]byte(nil), t.Raw...)
		for n := g.Range(1, 4); n > 0; n-- {
			switch g.N(4) {
			case 0, 1:
				b[g.N(len(b))] ^= 1 << g.N(8)
			case 2:
				k := g.N(len(b))
				b = append(b[:k], b[k+1:]...)
			case 3:
				k := g.N(len(b))
				b = append(b[:k], append([]byte{byte(g.N(256))}, b[k:]...)...)
			}
		}
		_, ok := ldec(b)
		return b, !ok, "damaged"
	}
}
