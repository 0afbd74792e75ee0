// Package rt is the simulator kernel and the simulated counterparts of the
// standard-library facilities gotor uses (goroutines, channels, sync, time,
// net, os, net/http, log, flag). Exactly one simulated goroutine runs at any
// moment; who runs next, and after how many statements it is preempted, is
// drawn from the run's "sched" stream.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

const (
	spinLimit  = 4000 // loop iterations without progress before a goroutine counts as spinning
	spinSlice  = 640  // iterations a spinning goroutine gets per turn
	infBudget  = int64(1) << 62
	baseEpochS = 1_600_000_000 // simulated wall clock at time 0
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine: a real one that only runs while it holds the token.
type G struct {
	ID     int
	Name   string
	Host   *Host
	wake   chan struct{}
	exited chan struct{}
	state  gstate
	budget int64
	spin   int64
	epoch  uint64
	killed bool // operations end the goroutine instead of acting
	reaped bool // somebody waits for it to be gone
	why    string
	where  int32
	depth  int
}

// Host is one simulated machine: a process (its goroutines), a disk, an address.
type Host struct {
	Name     string
	IP       string
	Sim      *Sim
	FS       *FS
	Args     []string
	gs       map[int]*G
	alive    bool
	Crashed  bool
	CrashMsg string
	CrashStk string
	Exited   bool
	ExitCode int
	ExitMsg  string
	conns    map[int]*Conn
	listens  map[string]*SimListener
	flagset  *flagState
	env      bool
	nextPort int
	fds      int
	tickers  int
	// AcceptFault, if set, is asked before each accept whether to fail it.
	AcceptFault func() error
	LogLines    []string
}

type event struct {
	at  int64
	seq uint64
	f   func()
	idx int
	off bool
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x any)   { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return e
}

// Sim is one simulated execution.
type Sim struct {
	now    int64
	seq    uint64
	events eventHeap
	cur    *G
	runq   []*G
	spinq  []*G
	all    map[int]*G
	nextG  int
	epoch  uint64
	done   chan struct{}
	fin    bool
	root   *G
	Hosts  []*Host
	hostIP map[string]*Host

	mapw map[unsafe.Pointer]*G // maps being changed
	ptrs map[any]int           // numbers of pointers used as map keys

	Gen, Sched, Net, Fault, Cfg *Stream

	// PreemptMean is the mean number of statements between preemptions (0 = only at blocking points).
	PreemptMean int
	// SpinMean: while others can run, one of SpinMean turns goes to a spinning goroutine.
	SpinMean int
	// StallNum/1024 is the chance, per preemption, that the preempted goroutine is held back for a while.
	StallNum int
	StallMax int64
	// StallTotal is the time lost to injected stalls so far (all goroutines added up).
	StallTotal int64
	// NoStall names goroutines that are never stalled (prefix match).
	NoStall []string

	hash                uint64
	Switches            int64
	Preempts            int64
	SpinJumps           int64
	Steps               int64
	MaxSwitch           int64
	Overrun             bool
	OverrunMsg          string
	swMark, opMark, ops int64
	picks               int64
	Stats               map[string]int64
	Verbose             bool
	Trace               []string
	TraceMax            int
	OnDial              func(h *Host, addr string)
	OnConn              func(dialer, accepter *Conn) // a connection has just been made
	DialFate            func(h *Host, addr string) DialFate
	OnFS                func(h *Host, op, path string, ok bool)
	HTTP                map[string]HTTPHandler
	conns               int
	nextTmp             int
	SchedPts            map[uint64]struct{}
	Fatalf              func(string)
	// Deadline is the real time at which the run is abandoned (Slow is set then).
	Deadline  time.Time
	Slow      bool
	InternalE string
}

// S is the running simulation; nil outside one.
var S *Sim

func NewSim(gen, sched, net, fault, cfg *Stream) *Sim {
	return &Sim{
		Gen: gen, Sched: sched, Net: net, Fault: fault, Cfg: cfg,
		all: map[int]*G{}, mapw: map[unsafe.Pointer]*G{}, ptrs: map[any]int{}, Stats: map[string]int64{}, hostIP: map[string]*Host{},
		done: make(chan struct{}), hash: 14695981039346656037, MaxSwitch: 2_000_000,
		HTTP: map[string]HTTPHandler{}, SchedPts: map[uint64]struct{}{}, TraceMax: 4000,
		StallMax: int64(2e9),
	}
}

func (s *Sim) NewHost(name, ip string) *Host {
	h := &Host{Name: name, IP: ip, Sim: s, gs: map[int]*G{}, alive: true, conns: map[int]*Conn{}, listens: map[string]*SimListener{}, nextPort: 40000}
	h.FS = NewFS(h)
	s.Hosts = append(s.Hosts, h)
	s.hostIP[ip] = h
	return h
}

// NewEnvHost makes a machine of the environment (scripted peers).
func (s *Sim) NewEnvHost(name, ip string) *Host {
	h := s.NewHost(name, ip)
	h.env = true
	return h
}

// Hash of the event log so far.
func (s *Sim) Hash() uint64 { return s.hash }
func (s *Sim) Now() int64   { return s.now }

func (s *Sim) mixHash(x uint64) {
	s.hash = (s.hash ^ x) * 1099511628211
	s.hash ^= s.hash >> 29
}

// Event records one observable step in the run's log (hash, and text if verbose).
func (s *Sim) Event(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	s.mixHash(HashString(m))
	s.mixHash(uint64(s.now))
	if s.Verbose {
		if len(s.Trace) < s.TraceMax {
			s.Trace = append(s.Trace, fmt.Sprintf("%12.6f %s", float64(s.now)/1e9, m))
		} else if len(s.Trace) == s.TraceMax {
			s.Trace = append(s.Trace, "... trace truncated")
		}
	}
}

func (s *Sim) Stat(name string) { s.Stats[name]++ }

// ---------------------------------------------------------------- running

// Run executes root as the first simulated goroutine, on an environment host,
// and returns when root returns. All other goroutines are then destroyed.
func (s *Sim) Run(root func()) {
	if S != nil {
		panic("nested simulation")
	}
	S = s
	env := s.NewHost("env", "10.255.0.1")
	env.env = true
	s.root = s.spawn(env, "root", root)
	s.runqRemove(s.root)
	s.cur = s.root
	s.root.state = gRunning
	s.setBudget(s.root)
	s.root.wake <- struct{}{}
	<-s.done
	S = nil
}

func (s *Sim) spawn(h *Host, name string, f func()) *G {
	s.nextG++
	g := &G{ID: s.nextG, Name: name, Host: h, wake: make(chan struct{}, 1), exited: make(chan struct{}), state: gRunnable}
	s.all[g.ID] = g
	h.gs[g.ID] = g
	s.runq = append(s.runq, g)
	go g.main(s, f)
	return g
}

func (g *G) main(s *Sim, f func()) {
	<-g.wake
	defer g.end(s)
	if g.killed {
		return
	}
	defer func() {
		if r := recover(); r != nil && !g.killed {
			s.panicked(g, r, string(debug.Stack()))
		}
	}()
	f()
}

// end runs when a goroutine is finished (returned, panicked, exited or killed).
func (g *G) end(s *Sim) {
	g.state = gDead
	delete(s.all, g.ID)
	delete(g.Host.gs, g.ID)
	close(g.exited)
	if g.reaped {
		return // the killer continues
	}
	if g == s.root {
		s.finish()
		return
	}
	s.dispatch(nil)
}

func (s *Sim) finish() {
	s.fin = true
	ids := make([]int, 0, len(s.all))
	for id := range s.all {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	s.cur = nil
	for _, id := range ids {
		if g := s.all[id]; g != nil {
			s.reap(g)
		}
	}
	close(s.done)
}

// reap destroys one parked goroutine: it unwinds (running its deferred calls,
// in which simulated operations do nothing) and is gone when reap returns.
func (s *Sim) reap(g *G) {
	if g.state == gDead {
		return
	}
	g.killed, g.reaped = true, true
	s.runqRemove(g)
	prev := s.cur
	s.cur = g
	g.wake <- struct{}{}
	<-g.exited
	s.cur = prev
}

func (s *Sim) runqRemove(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			return
		}
	}
	for i, x := range s.spinq {
		if x == g {
			s.spinq = append(s.spinq[:i:i], s.spinq[i+1:]...)
			return
		}
	}
}

func (s *Sim) panicked(g *G, r any, stk string) {
	msg := fmt.Sprintf("%v", r)
	if g.Host.env {
		s.InternalE = "harness panic: " + msg + "\n" + stk
		if g != s.root {
			// make the run end: kill root
			s.fin = true
		}
		return
	}
	s.Event("host %s: process crashed: panic: %s", g.Host.Name, msg)
	g.Host.die(g, true, msg, stk, 2)
}

// die ends the host's process: every goroutine but except is destroyed, its
// sockets are reset and its descriptors dropped. The disk stays.
func (h *Host) die(except *G, crashed bool, msg, stk string, code int) {
	if !h.alive {
		return
	}
	h.alive = false
	s := h.Sim
	if except != nil {
		except.killed = true
	}
	if crashed {
		h.Crashed, h.CrashMsg, h.CrashStk = true, msg, stk
	} else {
		h.Exited, h.ExitCode, h.ExitMsg = true, code, msg
	}
	ids := make([]int, 0, len(h.gs))
	for id := range h.gs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if g := h.gs[id]; g != nil && g != except {
			s.reap(g)
		}
	}
	h.tickers = 0
	h.netDown()
	h.FS.dropHandles()
}

// KillProcess destroys the host's process from outside (crash injection).
func (h *Host) KillProcess(why string) {
	s := h.Sim
	if s.cur == nil { // in an event: some goroutine of the process may be the one dispatching
		s.spawn(s.root.Host, "killer", func() { h.KillProcess(why) })
		return
	}
	s.Event("host %s: killed (%s)", h.Name, why)
	h.die(nil, false, "killed: "+why, "", -9)
}

// KillIf kills h's process as soon as possible, if cond still holds then.
func (h *Host) KillIf(why string, cond func() bool) {
	h.Sim.spawn(h.Sim.root.Host, "killer", func() {
		if h.ProcessAlive() && cond() {
			h.Sim.Stats["fault.crash"]++
			h.KillProcess(why)
		}
	})
}

// ProcessAlive reports whether the host's process runs.
func (h *Host) ProcessAlive() bool { return h.alive && (len(h.gs) > 0) }

// Start begins a new process on h running f.
func (h *Host) Start(name string, args []string, f func()) {
	h.alive, h.Crashed, h.Exited, h.CrashMsg, h.ExitMsg, h.CrashStk = true, false, false, "", "", ""
	h.Args = args
	h.flagset = nil
	h.Sim.spawn(h, name, func() {
		f()
		// main returned: the process exits
		g := h.Sim.cur
		h.Sim.Event("host %s: main returned", h.Name)
		h.die(g, false, "main returned", "", 0)
	})
}

// NumG is the number of live goroutines of the host's process.
func (h *Host) NumG() int { return len(h.gs) }

// Goroutines describes the live goroutines of the host (for reports).
func (h *Host) Goroutines() []string {
	ids := make([]int, 0)
	for id := range h.gs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []string
	for _, id := range ids {
		g := h.gs[id]
		out = append(out, fmt.Sprintf("%s: %s", g.Name, g.why))
	}
	return out
}

// Fatal is an unrecoverable runtime error of the current process.
func Fatal(msg string) {
	s := S
	g := s.cur
	s.Event("host %s: fatal error: %s", g.Host.Name, msg)
	g.Host.die(g, true, "fatal error: "+msg, string(debug.Stack()), 2)
	runtime.Goexit()
}

// Exit ends the current process (os.Exit, log.Fatal).
func Exit(code int, msg string) {
	s := S
	if s == nil || s.cur == nil {
		panic("exit outside simulation")
	}
	g := s.cur
	if g.killed {
		runtime.Goexit()
	}
	s.Event("host %s: exit(%d) %s", g.Host.Name, code, msg)
	g.Host.die(g, false, msg, "", code)
	runtime.Goexit()
}

// ---------------------------------------------------------------- scheduling

func (s *Sim) setBudget(g *G) {
	if g.spin >= spinLimit {
		g.budget = infBudget
		return
	}
	if s.PreemptMean > 0 && !g.Host.env {
		b := s.Sched.Geom(s.PreemptMean)
		if b == 0 {
			g.budget = infBudget
		} else {
			g.budget = int64(b)
		}
	} else {
		g.budget = infBudget
	}
}

func (s *Sim) ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	s.enqueue(g)
}

func (s *Sim) enqueue(g *G) {
	if g.spin >= spinLimit {
		s.spinq = append(s.spinq, g)
	} else {
		s.runq = append(s.runq, g)
	}
}

// dispatch hands the token to the next goroutine. self is the caller if it can
// be resumed later (already queued or blocked), nil if it is dead.
func (s *Sim) dispatch(self *G) {
	next := s.pick()
	if next == nil { // simulation over or stuck
		s.wedge(self)
		return
	}
	s.epochBump(next)
	next.state = gRunning
	s.setBudget(next)
	if next == self {
		s.cur = self
		return
	}
	s.Switches++
	s.mixHash(uint64(next.ID)<<20 ^ uint64(uint32(next.where)))
	if self != nil {
		s.SchedPts[uint64(uint32(self.where))<<32|uint64(uint32(next.where))] = struct{}{}
	}
	s.cur = next
	next.wake <- struct{}{}
	if self == nil {
		return
	}
	<-self.wake
	if self.killed {
		runtime.Goexit()
	}
}

func (s *Sim) epochBump(next *G) {
	if next.spin >= spinLimit {
		next.epoch = s.epoch
	} else {
		s.epoch++
	}
}

// wedge: nothing can run any more. Wake root with the wedge flag by treating it
// as a harness-visible condition.
func (s *Sim) wedge(self *G) {
	if s.InternalE == "" && !s.Overrun {
		s.InternalE = "simulation stuck: no runnable goroutine and no pending event, or run overran its limits"
	}
	// destroy root, which ends the run
	r := s.root
	if self == r {
		runtime.Goexit()
	}
	r.state = gRunning
	s.cur = r
	s.fin = true
	r.killed = false
	r.why = "wedged"
	r.wedged()
	if self == nil {
		return
	}
	<-self.wake
	if self.killed {
		runtime.Goexit()
	}
}

func (g *G) wedged() {
	wedgeFlag = g
	g.wake <- struct{}{}
}

var wedgeFlag *G

func (s *Sim) pick() *G {
	for {
		if s.fin {
			return nil
		}
		if s.picks++; s.picks%4096 == 0 && !s.Deadline.IsZero() && time.Now().After(s.Deadline) {
			s.Slow, s.Overrun, s.fin = true, true, true
			return nil
		}
		if s.Switches-s.swMark > s.MaxSwitch {
			s.overrun("context switches")
			return nil
		}
		if len(s.runq) > 0 {
			if n := len(s.spinq); n > 0 && s.Sched.N(max(s.SpinMean, 2)) == 1 {
				i := 0
				if n > 1 {
					i = s.Sched.N(n)
				}
				g := s.spinq[i]
				s.spinq = append(s.spinq[:i:i], s.spinq[i+1:]...)
				s.Switches++
				return g
			}
			i := 0
			if len(s.runq) > 1 {
				i = s.Sched.N(len(s.runq))
			}
			g := s.runq[i]
			if i == 0 {
				s.runq = s.runq[1:]
			} else {
				s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			}
			return g
		}
		// only spinners left: each gets a turn, then time moves on
		for i, g := range s.spinq {
			if g.epoch != s.epoch {
				s.spinq = append(s.spinq[:i:i], s.spinq[i+1:]...)
				return g
			}
		}
		if !s.fireNext() {
			return nil
		}
	}
}

// fireNext advances the clock to the next event and runs every event due then.
func (s *Sim) fireNext() bool {
	for len(s.events) > 0 {
		e := heap.Pop(&s.events).(*event)
		if e.off {
			continue
		}
		if e.at > s.now {
			s.now = e.at
			s.swMark, s.opMark = s.Switches, s.ops
		}
		s.epoch++
		s.SpinJumps++
		prev := s.cur
		s.cur = nil
		e.f()
		for len(s.events) > 0 && s.events[0].at == s.now {
			e := heap.Pop(&s.events).(*event)
			if !e.off {
				e.f()
			}
		}
		s.cur = prev
		return true
	}
	return false
}

// At schedules f to run (in scheduler context: it must not block) after d.
func (s *Sim) At(d int64, f func()) *event {
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &event{at: s.now + d, seq: s.seq, f: f}
	heap.Push(&s.events, e)
	return e
}

func (s *Sim) cancel(e *event) {
	if e != nil {
		e.off = true
	}
}

// block parks the current goroutine until ready() is called on it.
func (s *Sim) block(why string) {
	g := s.cur
	if g.killed {
		runtime.Goexit()
	}
	g.state = gBlocked
	g.why = why
	s.dispatch(g)
	s.afterResume(g)
}

func (s *Sim) afterResume(g *G) {
	if wedgeFlag == g {
		wedgeFlag = nil
		runtime.Goexit()
	}
}

// yield gives others a chance to run.
func (s *Sim) yield() {
	g := s.cur
	if g.killed {
		runtime.Goexit()
	}
	g.state = gRunnable
	g.why = "runnable"
	s.enqueue(g)
	s.dispatch(g)
	s.afterResume(g)
}

func (s *Sim) preempt(g *G) {
	s.Preempts++
	if s.StallNum > 0 && s.stallable(g) && s.Fault.Chance(s.StallNum, 1024) {
		s.Stats["fault.stall"]++
		d := int64(s.Fault.Range(1, int(s.StallMax/1e6))) * 1e6
		s.StallTotal += d
		s.Event("stall %s for %dms", g.Name, d/1e6)
		s.sleep(d, "stalled")
		return
	}
	s.yield()
}

func (s *Sim) stallable(g *G) bool {
	for _, n := range s.NoStall {
		if strings.Contains(g.Name, n) {
			return false
		}
	}
	return true
}

func (s *Sim) sleep(d int64, why string) {
	g := s.cur
	s.At(d, func() { s.ready(g) })
	s.block(why)
}

// Y is inserted before every statement of the code under test.
func Y(site int32) {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if g == nil {
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	g.where = site
	g.budget--
	if g.budget > 0 {
		return
	}
	s.preempt(g)
}

// YL is inserted at the start of every loop body of the code under test.
func YL(site int32) {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if g == nil {
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	g.where = site
	g.spin++
	if g.spin >= spinLimit {
		if g.spin == spinLimit || (g.spin-spinLimit)%spinSlice == 0 {
			s.yield()
		}
		return
	}
	g.budget--
	if g.budget > 0 {
		return
	}
	s.preempt(g)
}

// progress marks that the current goroutine did something other than spin.
func (s *Sim) progress() {
	if g := s.cur; g != nil && g.spin > 0 {
		spun := g.spin >= spinLimit
		g.spin = 0
		if spun {
			s.setBudget(g)
		}
	}
	s.op()
}

// op is an operation that a goroutine may repeat without getting anywhere.
func (s *Sim) op() {
	s.ops++
	if s.cur != nil {
		if s.cur.killed {
			runtime.Goexit()
		}
		if s.ops-s.opMark > s.MaxSwitch {
			s.overrun("operations")
			s.cur.state = gBlocked
			s.dispatch(s.cur)
			s.afterResume(s.cur)
		}
	}
}

// overrun: the code under test runs without end while simulated time stands still.
func (s *Sim) overrun(what string) {
	s.Overrun = true
	who := ""
	if s.cur != nil {
		who = s.cur.Name + " (" + s.cur.Host.Name + ")"
	}
	s.OverrunMsg = fmt.Sprintf("livelock: more than %d %s at simulated time %.6fs without time advancing; running: %s", s.MaxSwitch, what, float64(s.now)/1e9, who)
	s.fin = true
}

// Go starts a simulated goroutine on the current host.
func Go(name string, f func()) {
	s := S
	if s == nil {
		panic("go statement outside a simulation")
	}
	g := s.cur
	if g.killed {
		runtime.Goexit()
	}
	s.progress()
	s.spawn(g.Host, name, f)
}

// GoOn starts a simulated goroutine on host h (harness use).
func (s *Sim) GoOn(h *Host, name string, f func()) *G { return s.spawn(h, name, f) }

// CurHost is the host of the running goroutine.
func CurHost() *Host { return S.cur.Host }

func BlockForever() { S.block("select {}") }

func Gosched() {
	if S != nil && S.cur != nil {
		S.cur.spin++
		S.yield()
	}
}

// WaitQ is a set of parked goroutines.
type WaitQ struct{ gs []*G }

func (q *WaitQ) Wait(s *Sim, why string) {
	q.gs = append(q.gs, s.cur)
	s.block(why)
}

func (q *WaitQ) WakeAll(s *Sim) {
	l := q.gs
	q.gs = nil
	for _, g := range l {
		s.ready(g)
	}
}

func (q *WaitQ) WakeOne(s *Sim) bool {
	for len(q.gs) > 0 {
		g := q.gs[0]
		q.gs = q.gs[1:]
		if g.state == gBlocked {
			s.ready(g)
			return true
		}
	}
	return false
}

// Split marks the point between evaluating the right side of an assignment to a
// shared location and storing it.
func Split[T any](site int32, v T) T {
	Y(site)
	return v
}
