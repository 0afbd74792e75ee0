package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"gotor/simreset"
	"vsim/rt"
)

// ---------------------------------------------------------------- one run

type Streams struct {
	Gen   []uint32 `json:"gen"`
	Cfg   []uint32 `json:"cfg"`
	Sched []uint32 `json:"sched"`
	Net   []uint32 `json:"net"`
	Fault []uint32 `json:"fault"`
}

func (s *Streams) list() []*[]uint32 {
	return []*[]uint32{&s.Sched, &s.Fault, &s.Net, &s.Cfg, &s.Gen}
}

func (s *Streams) size() int {
	n := 0
	for _, p := range s.list() {
		n += len(*p)
	}
	return n
}

type Result struct {
	Viol     []Viol
	Internal string
	Slow     bool
	Hash     uint64
	SimNs    int64
	Stats    map[string]int64
	Count    map[string]int64
	Streams  Streams
	Trace    []string
	Notes    []string
	SchedPts map[uint64]struct{}
	Switches int64
}

func (r *Result) has(prop string) *Viol {
	for i := range r.Viol {
		if prop == "" || r.Viol[i].has(prop) {
			return &r.Viol[i]
		}
	}
	return nil
}

// execute performs one simulated run.
func execute(scen string, seed uint64, rep *Streams, verbose bool, wall time.Duration) *Result {
	fn := scenarios[scen]
	if fn == nil {
		return &Result{Internal: "no scenario " + scen}
	}
	mk := func(n string, rec []uint32) *rt.Stream {
		if rep != nil {
			return rt.ReplayStream(n, rec)
		}
		return rt.NewStream(n, rt.Mix64(seed, rt.HashString(scen)))
	}
	var rs Streams
	if rep != nil {
		rs = *rep
	}
	gen, sched, nt, fault, cfg := mk("gen", rs.Gen), mk("sched", rs.Sched), mk("net", rs.Net), mk("fault", rs.Fault), mk("cfg", rs.Cfg)
	sim := rt.NewSim(gen, sched, nt, fault, cfg)
	sim.Verbose = verbose
	sim.Deadline = time.Now().Add(wall)
	r := &Run{Sim: sim, Scen: scen, Seed: seed, Gen: gen, Fault: fault, Cfg: cfg, Count: map[string]int64{}}
	simreset.All()
	sim.Run(func() { fn(r) })
	if sim.Overrun && !r.bad() {
		props := "C03,C14,C02,C16"
		if i := strings.IndexByte(scen, ':'); i >= 0 {
			props += "," + scen[i+1:]
		}
		r.Fail(props, "%s", sim.OverrunMsg)
	}
	res := &Result{Viol: r.Viol, Internal: sim.InternalE, Slow: sim.Slow, Hash: sim.Hash(), SimNs: sim.Now(), Stats: sim.Stats, Count: r.Count,
		Streams: Streams{gen.Rec, cfg.Rec, sched.Rec, nt.Rec, fault.Rec}, Trace: sim.Trace, Notes: r.Notes, SchedPts: sim.SchedPts, Switches: sim.Switches}
	if res.Slow {
		res.Viol, res.Internal = nil, ""
	}
	return res
}

// ---------------------------------------------------------------- plans

// plans says how a property's runs are spread over scenarios.
var plans = map[string][]share{}

func pickScen(prop string, seed uint64, i int) (string, uint64) {
	pl := plans[prop]
	t := 0
	for _, s := range pl {
		t += s.w
	}
	rs := rt.Mix64(seed, rt.HashString(prop), uint64(i))
	k := int(rt.Mix64(rs, 77) % uint64(t))
	for _, s := range pl {
		if k < s.w {
			return s.scen, rs >> 1
		}
		k -= s.w
	}
	panic("pick")
}

// ---------------------------------------------------------------- worker

type hit struct {
	Scen     string
	Seed     uint64
	Index    int
	Viol     Viol
	Internal string
	Streams  Streams
}

type report struct {
	Runs     int64
	Slow     int64
	SimNs    int64
	Switches int64
	Wall     float64
	Stats    map[string]int64
	Count    map[string]int64
	Scen     map[string]int64
	Hashes   []uint64
	Pts      []uint64
	Hits     []hit
	Other    map[string]int64 // violations of other properties seen on the way
	Samples  []string
	Internal []string
}

func worker(prop string, seed uint64, k, n int, budget time.Duration, maxRuns int, out, progress string) {
	runtime.GOMAXPROCS(2)
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetGCPercent(200)
	target = prop
	rep := report{Stats: map[string]int64{}, Count: map[string]int64{}, Scen: map[string]int64{}, Other: map[string]int64{}}
	start := time.Now()
	pts := map[uint64]struct{}{}
	hs := map[uint64]struct{}{}
	pf, e := os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0644)
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(3)
	}
	for i := k; (maxRuns == 0 || i < maxRuns) && time.Since(start) < budget; i += n {
		scen, rs := pickScen(prop, seed, i)
		pf.WriteAt([]byte(fmt.Sprintf("%-30s %20d %10d\n", scen, rs, i)), 0)
		res := execute(scen, rs, nil, false, 60*time.Second)
		if res.Slow {
			rep.Slow++
			continue
		}
		rep.Runs++
		rep.Scen[scen]++
		rep.SimNs += res.SimNs
		rep.Switches += res.Switches
		for a, b := range res.Stats {
			rep.Stats[a] += b
		}
		for a, b := range res.Count {
			rep.Count[a] += b
		}
		for p := range res.SchedPts {
			pts[p] = struct{}{}
		}
		if res.Switches > 20 || len(res.Streams.Gen) > 3 {
			hs[res.Hash] = struct{}{}
		}
		if len(rep.Samples) < 2 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("scenario %s seed %d: %.3fs simulated, %d context switches, %d scheduling points, faults %v, counts %v, event hash %016x", scen, rs, float64(res.SimNs)/1e9, res.Switches, len(res.Streams.Sched), faultsOf(res.Stats), res.Count, res.Hash))
		}
		if res.Internal != "" {
			rep.Internal = append(rep.Internal, fmt.Sprintf("scenario %s seed %d: %s", scen, rs, res.Internal))
			if len(rep.Internal) > 3 {
				break
			}
			continue
		}
		if v := res.has(prop); v != nil {
			rep.Hits = append(rep.Hits, hit{Scen: scen, Seed: rs, Index: i, Viol: *v, Streams: res.Streams})
			if len(rep.Hits) >= 3 {
				break
			}
		} else if len(res.Viol) > 0 {
			rep.Other[strings.Join(res.Viol[0].Props, ",")+": "+trunc(res.Viol[0].Msg, 120)]++
		}
	}
	for p := range pts {
		rep.Pts = append(rep.Pts, p)
	}
	for h := range hs {
		rep.Hashes = append(rep.Hashes, h)
	}
	rep.Wall = time.Since(start).Seconds()
	b, _ := json.Marshal(rep)
	if e := os.WriteFile(out, b, 0644); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(3)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func faultsOf(m map[string]int64) map[string]int64 {
	o := map[string]int64{}
	for k, v := range m {
		if strings.HasPrefix(k, "fault.") {
			o[strings.TrimPrefix(k, "fault.")] = v
		}
	}
	return o
}

// ---------------------------------------------------------------- replay files

type ReplayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	VSeed    uint64   `json:"verif_seed"`
	Message  string   `json:"violation"`
	Kind     string   `json:"kind"` // violation or process-death
	Hash     string   `json:"event_hash"`
	Faults   any      `json:"faults_injected"`
	Sizes    string   `json:"choices"`
	Streams  Streams  `json:"streams"`
	Events   []string `json:"events"`
	Notes    []string `json:"notes,omitempty"`
}

func writeJSON(path string, v any) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	_ = enc.Encode(v)
	// number arrays on one line
	s := buf.Bytes()
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	if e := os.WriteFile(path, compactNums(s), 0644); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(3)
	}
}

func compactNums(b []byte) []byte {
	lines := strings.Split(string(b), "\n")
	var o strings.Builder
	for _, l := range lines {
		t := strings.TrimSpace(l)
		num := len(t) > 0 && strings.Trim(t, "0123456789,") == ""
		if num {
			o.WriteString(t)
			continue
		}
		if o.Len() > 0 {
			o.WriteByte('\n')
		}
		o.WriteString(l)
	}
	return []byte(o.String())
}

// minimise shrinks the choices of a failing run while prop stays violated.
func minimise(prop, scen string, st Streams, budget time.Duration) (Streams, int) {
	end := time.Now().Add(budget)
	tries := 0
	cp := func(s Streams) Streams {
		var o Streams
		for i, p := range s.list() {
			*o.list()[i] = append([]uint32(nil), *p...)
		}
		return o
	}
	fails := func(s Streams) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		c := cp(s)
		r := execute(scen, 0, &c, false, 20*time.Second)
		return r.Internal == "" && r.has(prop) != nil
	}
	cur := cp(st)
	// drop tails, then whole streams to zero
	for i := range cur.list() {
		t := cp(cur)
		*t.list()[i] = nil
		if fails(t) {
			cur = t
			continue
		}
		lo, hi := 0, len(*cur.list()[i]) // shortest failing prefix (assuming monotone)
		for lo < hi && time.Now().Before(end) {
			m := (lo + hi) / 2
			t := cp(cur)
			*t.list()[i] = (*t.list()[i])[:m]
			if fails(t) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		t = cp(cur)
		if hi < len(*t.list()[i]) {
			*t.list()[i] = (*t.list()[i])[:hi]
			if fails(t) {
				cur = t
			}
		}
	}
	for pass := 0; pass < 3 && time.Now().Before(end); pass++ {
		changed := false
		for i := range cur.list() {
			for sz := len(*cur.list()[i]) / 2; sz >= 1; sz /= 2 {
				for at := 0; at+sz <= len(*cur.list()[i]) && time.Now().Before(end); {
					s := *cur.list()[i]
					// remove the chunk
					t := cp(cur)
					*t.list()[i] = append(append([]uint32(nil), s[:at]...), s[at+sz:]...)
					if fails(t) {
						cur, changed = t, true
						continue
					}
					// or zero it
					z := false
					t = cp(cur)
					q := *t.list()[i]
					for j := at; j < at+sz; j++ {
						if q[j] != 0 {
							q[j], z = 0, true
						}
					}
					if z && fails(t) {
						cur, changed = t, true
					}
					at += sz
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	// trailing zeros are implied
	for i := range cur.list() {
		s := *cur.list()[i]
		for len(s) > 0 && s[len(s)-1] == 0 {
			s = s[:len(s)-1]
		}
		*cur.list()[i] = s
	}
	return cur, tries
}

// cmdMinimise: harness minimise IN OUT SECS
func cmdMinimise(in, out string, secs int) {
	var rf ReplayFile
	mustRead(in, &rf)
	target = rf.Property
	lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	st, tries := minimise(rf.Property, rf.Scenario, rf.Streams, time.Duration(secs)*time.Second)
	res := execute(rf.Scenario, rf.Seed, &st, true, 60*time.Second)
	v := res.has(rf.Property)
	if v == nil {
		fmt.Fprintln(os.Stderr, "minimised run does not fail any more")
		os.Exit(3)
	}
	rf.Streams = st
	rf.Message = v.Msg
	rf.Hash = fmt.Sprintf("%016x", res.Hash)
	rf.Events = res.Trace
	rf.Notes = append(res.Notes, fmt.Sprintf("minimised in %d runs", tries))
	rf.Faults = faultsOf(res.Stats)
	rf.Sizes = sizes(st)
	writeJSON(out, rf)
}

func sizes(st Streams) string {
	return fmt.Sprintf("gen %d, cfg %d, sched %d, net %d, fault %d", len(st.Gen), len(st.Cfg), len(st.Sched), len(st.Net), len(st.Fault))
}

func mustRead(p string, v any) {
	b, e := os.ReadFile(p)
	if e == nil {
		e = json.Unmarshal(b, v)
	}
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(3)
	}
}

// cmdReplay re-executes a replay file; exit 1 if the violation is reproduced exactly.
func cmdReplay(path string, verbose bool) {
	var rf ReplayFile
	mustRead(path, &rf)
	target = rf.Property
	if rf.Kind == "process-death" {
		res := execute(rf.Scenario, rf.Seed, nil, verbose, 60*time.Second)
		fmt.Println("the simulator process survived; violations:", res.Viol)
		os.Exit(0)
	}
	res := execute(rf.Scenario, rf.Seed, &rf.Streams, true, 60*time.Second)
	if verbose {
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		for _, l := range res.Notes {
			fmt.Println(l)
		}
	}
	if res.Internal != "" {
		fmt.Println("internal error:", res.Internal)
		os.Exit(3)
	}
	v := res.has(rf.Property)
	if v == nil {
		fmt.Printf("REPLAY property=%s: no violation\n", rf.Property)
		os.Exit(0)
	}
	h := fmt.Sprintf("%016x", res.Hash)
	fmt.Printf("REPLAY property=%s reproduced (%s): %s\n", rf.Property, map[bool]string{true: "identical event hash " + h, false: "event hash " + h + " differs from " + rf.Hash}[h == rf.Hash], v.Msg)
	os.Exit(1)
}

// ---------------------------------------------------------------- check

type known struct {
	prop, scen, text string
}

func readKnown(path string) []known {
	b, e := os.ReadFile(path)
	if e != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 scenario=<name> match=<text of the violation>
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k known
		for _, fl := range []struct {
			key string
			dst *string
		}{{"property=", &k.prop}, {"scenario=", &k.scen}, {"match=", &k.text}} {
			if i := strings.Index(l, fl.key); i >= 0 {
				v := l[i+len(fl.key):]
				if fl.key != "match=" {
					v = strings.Fields(v)[0]
				}
				*fl.dst = v
			}
		}
		if k.prop != "" && k.text != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func (k known) matches(prop string, h hit) bool {
	return k.prop == prop && (k.scen == "" || k.scen == h.Scen) && strings.Contains(h.Viol.Msg, k.text)
}

func check(prop, tier string, seed uint64, dir, verif string, budget time.Duration, maxRuns, workers int) int {
	start := time.Now()
	if plans[prop] == nil {
		fmt.Fprintln(os.Stderr, "no plan for", prop)
		return 3
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	var reps []report
	type death struct {
		scen, out string
		seed      uint64
		idx       int
	}
	var deaths []death
	errs := []string{}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprintf("w%d.json", k))
			prog := filepath.Join(dir, fmt.Sprintf("w%d.prog", k))
			os.Remove(out)
			var eb bytes.Buffer
			cmd := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-k", fmt.Sprint(k), "-n", fmt.Sprint(workers),
				"-budget", fmt.Sprint(int(budget.Seconds())), "-max", fmt.Sprint(maxRuns), "-out", out, "-progress", prog)
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			done := make(chan error, 1)
			if e := cmd.Start(); e != nil {
				mu.Lock()
				errs = append(errs, e.Error())
				mu.Unlock()
				return
			}
			go func() { done <- cmd.Wait() }()
			var e error
			select {
			case e = <-done:
			case <-time.After(budget + 150*time.Second):
				cmd.Process.Kill()
				<-done
				mu.Lock()
				pb, _ := os.ReadFile(prog)
				errs = append(errs, "worker hung in "+strings.TrimSpace(string(pb)))
				mu.Unlock()
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if e != nil {
				pb, _ := os.ReadFile(prog)
				var d death
				fmt.Sscan(string(pb), &d.scen, &d.seed, &d.idx)
				d.out = eb.String()
				deaths = append(deaths, d)
				return
			}
			var r report
			b, e := os.ReadFile(out)
			if e == nil {
				e = json.Unmarshal(b, &r)
			}
			if e != nil {
				errs = append(errs, e.Error())
				return
			}
			reps = append(reps, r)
		}(k)
	}
	wg.Wait()
	var tot report
	tot.Stats, tot.Count, tot.Scen, tot.Other = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	hs, pts := map[uint64]bool{}, map[uint64]bool{}
	for _, r := range reps {
		tot.Runs += r.Runs
		tot.Slow += r.Slow
		tot.SimNs += r.SimNs
		tot.Switches += r.Switches
		tot.Wall += r.Wall
		for _, m := range []struct{ a, b map[string]int64 }{{tot.Stats, r.Stats}, {tot.Count, r.Count}, {tot.Scen, r.Scen}, {tot.Other, r.Other}} {
			for k, v := range m.b {
				m.a[k] += v
			}
		}
		for _, h := range r.Hashes {
			hs[h] = true
		}
		for _, p := range r.Pts {
			pts[p] = true
		}
		tot.Hits = append(tot.Hits, r.Hits...)
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Internal = append(tot.Internal, r.Internal...)
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	sort.Slice(tot.Hits, func(i, j int) bool { return tot.Hits[i].Index < tot.Hits[j].Index })
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	for _, k := range kn {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	var hits []hit
	for _, h := range tot.Hits {
		sup := false
		for _, k := range kn {
			sup = sup || k.matches(prop, h)
		}
		if !sup {
			hits = append(hits, h)
		}
	}
	code := 0
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "check error:", e)
		code = 3
	}
	for _, e := range tot.Internal {
		fmt.Fprintln(os.Stderr, "simulator error:", e)
		code = 3
	}
	nviol := 0
	rdir := filepath.Join(verif, "evidence", "replays")
	if len(hits) > 0 {
		h := hits[0]
		nviol = len(hits)
		raw := filepath.Join(rdir, prop+".raw.json")
		min := filepath.Join(rdir, prop+".json")
		os.MkdirAll(rdir, 0755)
		rf := ReplayFile{Property: prop, Scenario: h.Scen, Seed: h.Seed, VSeed: seed, Message: h.Viol.Msg, Kind: "violation", Streams: h.Streams, Sizes: sizes(h.Streams)}
		writeJSON(raw, rf)
		os.Remove(min)
		mc := exec.Command(self, "minimise", raw, min, fmt.Sprint(minSecs(tier)))
		mo, e := mc.CombinedOutput()
		path := min
		if e != nil {
			fmt.Fprintf(os.Stderr, "minimiser failed: %v %s\n", e, mo)
			path = raw
		} else {
			os.Remove(raw)
		}
		ro, _ := exec.Command(self, "replay", path).CombinedOutput()
		fmt.Printf("violation: %s\n", h.Viol.Msg)
		fmt.Printf("scenario %s, seed %d (run %d)\n", h.Scen, h.Seed, h.Index)
		fmt.Printf("%s", ro)
		if strings.Contains(string(ro), "reproduced") {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
		} else {
			fmt.Fprintln(os.Stderr, "the violation did not reproduce: the simulator is not deterministic")
			code = 3
		}
	} else if len(deaths) > 0 {
		// the simulating process itself died (memory exhaustion, stack overflow): see whether that repeats
		d := deaths[0]
		o, e := exec.Command(self, "run", "-scen", d.scen, "-seed", fmt.Sprint(d.seed), "-limit").CombinedOutput()
		fatal := func(s string) string {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") {
					return l
				}
			}
			return ""
		}
		f1, f2 := fatal(d.out), fatal(string(o))
		if _, isExit := e.(*exec.ExitError); isExit && f1 != "" && f1 == f2 && strings.Contains(string(o), "gotor/") && !strings.HasPrefix(f1, "panic:") {
			nviol = 1
			path := filepath.Join(rdir, prop+".json")
			writeJSON(path, ReplayFile{Property: prop, Scenario: d.scen, Seed: d.seed, VSeed: seed, Kind: "process-death",
				Message: "the process dies: " + f1, Notes: strings.Split(trunc(string(o), 4000), "\n")})
			fmt.Printf("violation: the client brings its process down: %s\nscenario %s, seed %d\n", f1, d.scen, d.seed)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
		} else {
			fmt.Fprintf(os.Stderr, "worker died in scenario %s seed %d: %s\n", d.scen, d.seed, trunc(d.out, 3000))
			code = 3
		}
	}
	if code == 0 && (tot.Runs == 0 || tot.Slow*5 > tot.Runs) {
		fmt.Fprintf(os.Stderr, "too few runs: %d, %d too slow\n", tot.Runs, tot.Slow)
		code = 3
	}
	faults := faultsOf(tot.Stats)
	probes := map[string]int64{}
	for k, v := range tot.Stats {
		if !strings.HasPrefix(k, "fault.") {
			probes[k] = v
		}
	}
	wall := time.Since(start).Seconds()
	other := map[string]int64{}
	for k, v := range tot.Other {
		if len(other) < 10 {
			other[k] = v
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"evaluations":                    tot.Runs,
			"distinct_nontrivial":            len(hs),
			"rule":                           "one case = one simulated execution of a scenario drawn from the run seed (configuration, workload, schedule, network, faults); distinct by the hash of its complete event log (context switches, I/O, messages, times); non-trivial if it had more than 20 context switches or a generated workload of more than 3 choices",
			"samples":                        tot.Samples,
			"runs_per_scenario":              tot.Scen,
			"seeds_per_hour":                 int64(float64(tot.Runs) / wall * 3600),
			"simulated_seconds":              float64(tot.SimNs) / 1e9,
			"context_switches":               tot.Switches,
			"distinct_switch_pairs":          len(pts),
			"switch_pairs_rule":              "a state reached = (statement at which one task was preempted or blocked, statement at which the next one resumed), counted once each",
			"faults_injected":                faults,
			"probes":                         probes,
			"work":                           tot.Count,
			"runs_too_slow":                  tot.Slow,
			"violations_of_other_properties": other,
			"real_components":                realParts(prop),
			"stubbed_components":             stubParts(prop),
		},
		"assumptions": []string{
			"the source-to-source translation of /repo/src preserves the meaning of the Go code (it is rebuilt from the working tree on every check)",
			"schedules are sequentially consistent interleavings at statement granularity; data races in the Go memory model sense are explored only as interleavings",
			"the simulated kernel, network and file system behave as Linux, TCP and a POSIX file system do in the respects modelled (DESIGN.md)",
		},
	}
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	fmt.Printf("%s %s: %d runs (%d distinct), %.0f simulated seconds, %d switch pairs, faults %v, %.1fs\n", prop, tier, tot.Runs, len(hs), float64(tot.SimNs)/1e9, len(pts), faults, wall)
	return code
}

func minSecs(tier string) int {
	if tier == "thorough" {
		return 120
	}
	return 30
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|run|replay|minimise|selftest")
		os.Exit(3)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	k := fs.Int("k", 0, "")
	n := fs.Int("n", 1, "")
	budget := fs.Int("budget", 30, "seconds")
	max := fs.Int("max", 0, "")
	out := fs.String("out", "", "")
	progress := fs.String("progress", "/dev/null", "")
	dir := fs.String("dir", ".", "")
	verif := fs.String("verif", ".", "")
	scen := fs.String("scen", "", "")
	verbose := fs.Bool("v", false, "")
	limit := fs.Bool("limit", false, "")
	count := fs.Int("count", 1, "")
	stop := fs.Bool("stop", false, "")
	switch mode {
	case "replay":
		v := len(os.Args) > 3 && os.Args[3] == "-v"
		cmdReplay(os.Args[2], v)
		return
	case "minimise":
		s := 30
		fmt.Sscan(os.Args[4], &s)
		cmdMinimise(os.Args[2], os.Args[3], s)
		return
	}
	fs.Parse(os.Args[2:])
	target = *prop
	switch mode {
	case "worker":
		worker(*prop, *seed, *k, *n, time.Duration(*budget)*time.Second, *max, *out, *progress)
	case "check":
		os.Exit(check(*prop, *tier, *seed, *dir, *verif, time.Duration(*budget)*time.Second, *max, *n))
	case "run":
		if *limit {
			lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
			_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
		bad := 0
		for i := 0; i < *count; i++ {
			t := time.Now()
			sd := *seed + uint64(i)
			res := execute(*scen, sd, nil, *verbose, 120*time.Second)
			if *verbose {
				for _, l := range res.Trace {
					fmt.Println(l)
				}
			}
			if *count == 1 || len(res.Viol) > 0 || res.Internal != "" || res.Slow {
				for _, l := range res.Notes {
					fmt.Println(l)
				}
				fmt.Printf("seed %d hash %016x sim %.3fs switches %d wall %.3fs stats %v count %v\n", sd, res.Hash, float64(res.SimNs)/1e9, res.Switches, time.Since(t).Seconds(), res.Stats, res.Count)
				if res.Internal != "" {
					fmt.Println("INTERNAL:", res.Internal)
				}
				if res.Slow {
					fmt.Println("SLOW")
				}
				for _, v := range res.Viol {
					fmt.Println("VIOL", v.Props, v.Msg)
				}
			}
			if len(res.Viol) > 0 || res.Internal != "" || res.Slow {
				bad++
				if *stop {
					os.Exit(1)
				}
			}
		}
		fmt.Printf("%d runs, %d bad\n", *count, bad)
	case "hashes": // determinism self-test: print the event hash of many runs
		for i := *k; i < *max; i += *n {
			sc, rs := pickScen(*prop, *seed, i)
			res := execute(sc, rs, nil, false, 120*time.Second)
			fmt.Printf("%d %s %d %016x %d %d\n", i, sc, rs, res.Hash, res.SimNs, res.Switches)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(3)
	}
}
