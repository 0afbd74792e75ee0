package rt

import "time"

func wall(ns int64) time.Time { return time.Unix(baseEpochS, ns).UTC() }

func TimeNow() time.Time {
	if S == nil {
		return wall(0)
	}
	return wall(S.now)
}

// untilNs is the simulated delay until t.
func untilNs(t time.Time) int64 { return t.Sub(wall(S.now)).Nanoseconds() }

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	s := S
	s.progress()
	if d <= 0 {
		s.yield()
		return
	}
	s.sleep(int64(d), "sleep")
}

// Timer is the simulated time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	f  func()
	ev *event
	g  *Host
}

func (t *Timer) arm(d time.Duration) {
	s := S
	h := s.cur.Host
	t.ev = s.At(int64(d), func() {
		t.ev = nil
		if !h.alive {
			return
		}
		if t.f != nil {
			s.spawn(h, "time.AfterFunc", t.f)
			return
		}
		if len(t.C.buf) < 1 {
			t.C.trySend(wall(s.now))
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	S.progress()
	t := &Timer{C: MakeChan[time.Time](1)}
	t.arm(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	S.progress()
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func TimeAfter(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.ev != nil {
		S.cancel(t.ev)
		t.ev = nil
		return true
	}
	return false
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// Ticker is the simulated time.Ticker: slow receivers lose ticks.
type Ticker struct {
	C   *Chan[time.Time]
	ev  *event
	gen int
	h   *Host // while active
}

func (t *Ticker) arm(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	s := S
	h := s.cur.Host
	next := s.now + int64(d)
	if t.h == nil {
		t.h = h
		h.tickers++
	}
	t.gen++
	gen := t.gen
	var tick func()
	tick = func() {
		if !h.alive || t.gen != gen {
			return
		}
		if len(t.C.buf) < 1 {
			t.C.trySend(wall(s.now))
		} else {
			s.Stats["probe.tick_dropped"]++
		}
		next += int64(d)
		t.ev = s.At(next-s.now, tick)
	}
	t.ev = s.At(int64(d), tick)
}

func NewTicker(d time.Duration) *Ticker {
	if S == nil || S.cur == nil {
		panic("NewTicker outside simulation")
	}
	S.progress()
	t := &Ticker{C: MakeChan[time.Time](1)}
	t.arm(d)
	return t
}

// Tickers is the number of tickers not stopped.
func (h *Host) Tickers() int { return h.tickers }

func (t *Ticker) Stop() {
	if t.h != nil {
		if t.h.alive {
			t.h.tickers--
		}
		t.h = nil
	}
	t.gen++
	S.cancel(t.ev)
}

func (t *Ticker) Reset(d time.Duration) {
	S.cancel(t.ev)
	t.arm(d)
}

func TimeTick(d time.Duration) *Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Dur makes a duration of nanoseconds (for the harness).
func Dur(ns int64) time.Duration { return time.Duration(ns) }
