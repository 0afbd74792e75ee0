//go:build !norate

package main

import (
	"errors"
	"fmt"
	"io"
	"sort"

	gio "gotor/io"

	"vsim/rt"
)

func init() {
	plan("C09", "ratelimit:C09", 10)
	plan("C10", "ratelimit:C10", 10)
}

func init() {
	scenarios["ratelimit:C09"] = func(r *Run) { r.rateScenario("C09") }
	scenarios["ratelimit:C10"] = func(r *Run) { r.rateScenario("C10") }
}

// xfer is one rate-limited transfer.
type xfer struct {
	id      int
	write   bool
	data    []byte // bytes to write, or the source's bytes
	n       int    // length of the transfer
	issued  int64
	started int64 // first call of the destination or source
	ended   int64
	acc     []byte // bytes the destination got
	pos     int
	failAt  int // the destination or source fails after this many bytes (-1: never)
	err     error
	once    bool // it fails only once
	failed  bool
	delay   int64 // the destination or source blocks this long
	chop    int
	r       *Run
	f       *rt.Stream
	res     error
	rate    int64
	limited bool // the limit was set the whole time
	free    bool // no limit was set the whole time
}

func (x *xfer) begin() {
	if x.started < 0 {
		x.started = x.r.Sim.Now()
		x.r.ev("transfer %d starts", x.id)
	}
	if x.delay > 0 {
		d := x.delay
		x.delay = 0
		rt.TimeSleep(rt.Dur(d))
	}
}

func (x *xfer) Write(b []byte) (int, error) {
	x.begin()
	if x.failAt >= 0 && len(x.acc)+len(b) > x.failAt && !(x.once && x.failed) {
		x.failed = true
		k := max(0, x.failAt-len(x.acc))
		x.acc = append(x.acc, b[:k]...)
		return k, x.err
	}
	for i := 0; i < len(b); { // the caller's bytes are taken over time
		k := len(b) - i
		if x.chop > 0 {
			k = min(k, x.chop)
		}
		x.acc = append(x.acc, b[i:i+k]...)
		i += k
		if i < len(b) {
			rt.Gosched()
		}
	}
	return len(b), nil
}

func (x *xfer) Read(b []byte) (int, error) {
	x.begin()
	if len(b) == 0 {
		return 0, nil
	}
	k := min(len(b), len(x.data)-x.pos)
	if x.chop > 0 {
		k = min(k, 1+x.f.N(x.chop))
	}
	if x.failAt >= 0 && x.pos+k >= x.failAt {
		k = x.failAt - x.pos
		copy(b[:k], x.data[x.pos:])
		x.pos += k
		if k > 0 && x.f.Chance(1, 2) {
			return k, nil
		}
		return k, x.err
	}
	if k == 0 {
		return 0, io.EOF
	}
	copy(b[:k], x.data[x.pos:])
	x.pos += k
	return k, nil
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) { return len(b), nil }

var errBroken = errors.New("destination broken")

func (r *Run) rateScenario(focus string) {
	g := r.Gen
	w := r.newWorld()
	s := r.Sim
	r.drawSched(false)
	s.MaxSwitch = 20_000_000
	draw := func() int64 {
		switch g.N(5) {
		case 0:
			return -1
		case 1:
			return int64(g.Range(1, 5))
		case 2:
			return int64(g.Range(1, 200))
		}
		return int64(g.Range(100, 20000))
	}
	rates := map[bool]int64{true: draw(), false: draw()} // by direction (true: write)
	phases := g.Range(1, 4)
	var all []*xfer
	changes := map[bool][]int64{}
	done := false
	stage := ""
	check := func(x *xfer) {
		dir := "read"
		if x.write {
			dir = "write"
		}
		name := fmt.Sprintf("%s %d of %d bytes (limit %d)", dir, x.id, x.n, x.rate)
		if x.write {
			want := x.data
			if x.failAt >= 0 && x.failAt < x.n {
				if x.res == nil {
					if !x.once || string(x.acc) != string(want) {
						r.Fail("C10", "%s reported success although its destination failed", name)
					}
				} else if !errors.Is(x.res, x.err) {
					r.Fail("C10", "%s reported %v instead of its destination's error %v", name, x.res, x.err)
				}
				if len(x.acc) > len(want) || string(x.acc) != string(want[:len(x.acc)]) {
					r.Fail("C10", "%s handed other bytes to its destination", name)
				}
				return
			}
			if x.res != nil {
				r.Fail("C10", "%s failed although its destination did not: %v", name, x.res)
			} else if string(x.acc) != string(want) {
				r.Fail("C10", "%s handed %d bytes to its destination, or not the caller's bytes exactly once", name, len(x.acc))
			}
			return
		}
		short := x.n > len(x.data) || x.failAt >= 0 && x.failAt < x.n
		if short {
			if x.res == nil {
				r.Fail("C10", "%s reported success although its source gave only %d bytes", name, x.pos)
			} else if x.failAt >= 0 && x.failAt < x.n && !errors.Is(x.res, x.err) {
				r.Fail("C10", "%s reported %v instead of its source's error %v", name, x.res, x.err)
			}
			return
		}
		if x.res != nil && !(x.failAt == x.n && errors.Is(x.res, x.err)) {
			r.Fail("C10", "%s failed although its source did not: %v", name, x.res)
		} else if x.res == nil && string(x.acc) != string(x.data[:x.n]) {
			r.Fail("C10", "%s reported success but the buffer does not hold the source's next %d bytes", name, x.n)
		}
	}
	body := func() {
		rl := gio.NewRateLimitIO()
		set := func(write bool, v int64) {
			rates[write] = v
			changes[write] = append(changes[write], s.Now())
			if write {
				rl.SetWriteRate(v)
			} else {
				rl.SetReadRate(v)
			}
			changes[write] = append(changes[write], s.Now())
		}
		for _, d := range []bool{true, false} {
			if rates[d] >= 0 || g.Chance(1, 2) {
				set(d, rates[d])
			}
		}
		rt.Go("limiter", rl.Run)
		rt.TimeSleep(rt.Dur(int64(g.N(1500)) * ms))
		for ph := 0; ph < phases && !r.bad(); ph++ {
			stage = "transfers"
			n := g.Range(1, 6)
			big := g.Chance(1, 4)
			again := g.Chance(1, 6) // the same limits are set again and again
			if again {
				n = g.Range(4, 12)
			}
			left, started := 0, 0
			oneWay, way := g.Chance(1, 4), g.Chance(1, 2)
			var now []*xfer
			change := focus == "C09" && g.Chance(1, 4) || focus == "C10" && g.Chance(1, 8) // the limit changes while transfers are under way
			for k := 0; k < n; k++ {
				x := &xfer{id: len(all), write: g.Chance(2, 3), failAt: -1, started: -1, ended: -1, r: r, f: r.Fault}
				if oneWay {
					x.write = way
				}
				R := rates[x.write]
				x.rate = R
				x.limited, x.free = R > 0 && !change, R < 0 && !change
				lim := int(min(max(R, 50), 5000))
				switch g.N(5) {
				case 0:
					x.n = g.N(lim + 1)
				case 1:
					x.n = 1 + g.N(lim)
				case 2:
					x.n = g.Range(1, 20)
				case 3:
					x.n = lim
				case 4:
					x.n = 0
					if g.Chance(3, 4) {
						x.n = lim + g.N(lim)
					}
				}
				if big {
					x.n = min(3*lim, 12000)
				}
				x.data = make([]byte, x.n)
				fill(x.data, g.U64())
				if g.Chance(1, 6) {
					x.failAt = g.N(x.n + 1)
					x.once = x.write && g.Chance(1, 2)
					x.err = fmt.Errorf("%d: %w", x.id, errBroken)
				} else if !x.write && g.Chance(1, 10) && x.n > 0 {
					x.data = x.data[:g.N(x.n)]
				}
				if g.Chance(1, 4) {
					x.delay = int64(g.Small(20)) * 500 * ms
				}
				if g.Chance(1, 2) {
					x.chop = []int{1, 3, 50, 1000}[g.N(4)]
					if x.n > 500 {
						x.chop = max(x.chop, 50)
					}
				}
				all = append(all, x)
				now = append(now, x)
				left++
				rep := g.Range(1, 1)
				_ = rep
				rt.Go(fmt.Sprintf("transfer%d", x.id), func() {
					if x.id%3 == 0 {
						rt.Gosched()
					}
					x.issued = s.Now()
					if x.write {
						mine := append([]byte(nil), x.data...)
						x.res = rl.Write(x, mine)
						if string(mine) != string(x.data) {
							r.Fail("C10", "write %d changed the caller's bytes", x.id)
						}
					} else {
						buf := make([]byte, x.n)
						x.res = rl.Read(x, buf)
						x.acc = buf
					}
					x.ended = s.Now()
					r.ev("transfer %d ends: %v", x.id, x.res)
					left--
				})
			}
			_ = started
			t0 := s.Now()
			over, busy := false, false
			if d := !way; oneWay && !change && rates[!d] > 0 { // the other direction is kept busy
				only := true
				for _, x := range now {
					only = only && x.write == !d
				}
				if only {
					data := make([]byte, max(1, int(min(rates[d], 3000))))
					busy = true
					rt.Go("busy", func() {
						defer func() { busy = false }()
						for k := 0; k < 60 && left > 0 && !over && !r.bad(); k++ {
							if d {
								_ = rl.Write(io.Discard, data)
							} else {
								_ = rl.Read(zeros{}, data)
							}
							if rates[d] < 0 {
								rt.TimeSleep(rt.Dur(100 * ms))
							}
						}
					})
				}
			}
			if again && !change {
				gap := int64(g.Range(1, 100)) * 3 * ms
				rt.Go("setter", func() {
					for k := 0; k < 200 && left > 0 && !r.bad(); k++ {
						d := k%4 != 3
						if d {
							rl.SetWriteRate(rates[d])
						} else {
							rl.SetReadRate(rates[d])
						}
						rt.TimeSleep(rt.Dur(gap))
					}
				})
			}
			if change {
				for k := g.Range(1, 3); k > 0; k-- {
					if g.Chance(1, 2) {
						rt.Gosched()
					} else {
						rt.TimeSleep(rt.Dur(int64(g.N(3000)) * ms))
					}
					d, v := g.Chance(2, 3), draw()
					stage = fmt.Sprintf("setting the limit to %d", v)
					set(d, v)
				}
				stage = "transfers"
			}
			end := s.Now() + int64(n+2)*sec + 50*ms + 2*s.StallTotal
			for !r.bad() {
				all := true
				for _, x := range now {
					if x.started < 0 && x.ended < 0 && x.n > 0 {
						all = false
					}
				}
				if all {
					break
				}
				if s.Now() > end {
					for _, x := range now {
						if x.started < 0 && x.ended < 0 && x.n > 0 {
							if rates[x.write] < 0 {
								r.Fail("C09,C10", "transfer %d (write: %v) of %d bytes has not started after %.1fs although no limit is set", x.id, x.write, x.n, f(s.Now()-t0))
							} else {
								r.Fail("C10", "transfer %d (write: %v) of %d bytes has not started after %.1fs, %d were pending under a limit of %d", x.id, x.write, x.n, f(s.Now()-t0), n, rates[x.write])
							}
							return
						}
					}
				}
				rt.TimeSleep(rt.Dur(10 * ms))
			}
			over = true
			for busy && !r.bad() {
				rt.TimeSleep(rt.Dur(50 * ms))
			}
			if g.Chance(2, 3) {
				stage = "waiting for transfers"
				for left > 0 && !r.bad() {
					rt.TimeSleep(rt.Dur(50 * ms))
				}
				for _, x := range now {
					if !r.bad() {
						check(x)
					}
				}
			}
			if g.Chance(1, 2) && !r.bad() {
				rt.TimeSleep(rt.Dur(int64(g.N(2500)) * ms))
			}
			if g.Chance(1, 3) && !r.bad() {
				stage = "setting the limit"
				set(g.Chance(1, 2), draw())
			}
		}
		for !r.bad() {
			left := 0
			for _, x := range all {
				if x.ended < 0 {
					left++
				}
			}
			if left == 0 {
				break
			}
			stage = "waiting for transfers"
			rt.TimeSleep(rt.Dur(50 * ms))
		}
		for _, x := range all {
			if !r.bad() {
				check(x)
			}
		}
		done = true
	}
	if !w.comp(600*sec, body, func() bool { return done || r.bad() }) && !w.dead() && !r.bad() {
		w.compHung("C10", "rate-limited transfers never ended ("+stage+")")
	}
	w.compDead("C09,C10")
	r.Count["transfers"] += int64(len(all))
	if r.bad() {
		return
	}
	// how much was started when
	for _, d := range []bool{true, false} {
		var xs []*xfer
		for _, x := range all {
			if x.write == d && x.started >= 0 {
				xs = append(xs, x)
				free := x.free
				for _, c := range changes[d] { // a transfer may start after its phase
					free = free && !(c >= x.issued && c <= x.started)
				}
				if free && x.started > x.issued+2*ms+2*s.StallTotal {
					r.Fail("C09", "transfer %d waited %.3fs although no limit was set", x.id, f(x.started-x.issued))
				}
			}
		}
		sort.SliceStable(xs, func(i, j int) bool { return xs[i].started < xs[j].started })
		for i := range xs {
			if !xs[i].limited {
				continue
			}
			R := xs[i].rate
			var sum, big int64
			for j := i; j < len(xs) && xs[j].limited && xs[j].rate == R; j++ {
				changed := false // the limit did not change in between
				for _, c := range changes[d] {
					changed = changed || c >= xs[i].issued && c <= xs[j].started
				}
				if changed {
					break
				}
				n := int64(xs[j].n)
				sum += n
				big = max(big, n)
				T := xs[j].started - xs[i].started
				periods := T/sec + 2 // accounting periods that a span of T can touch
				if sum > periods*(R-1+big) && sum > 0 {
					r.Fail("C09", "%d bytes were started within %.3fs under a limit of %d bytes/s (largest transfer %d)", sum, f(T), R, big)
					return
				}
			}
		}
	}
}
