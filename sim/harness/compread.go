//go:build !noread

package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	gio "gotor/io"

	"vsim/rt"
)

func init() {
	plan("C13", "readloop:C13", 10)
	plan("C14", "readloop:C14", 4)
}

func init() {
	scenarios["readloop:C13"] = func(r *Run) { r.readLoopScenario("C13") }
	scenarios["readloop:C14"] = func(r *Run) { r.readLoopScenario("C14") }
}

// tapConn is the connection given to the reader; it knows what Read returned and
// can make reads short or fail.
type tapConn struct {
	*rt.Conn
	got     []byte
	chop    int
	f       *rt.Stream
	failAt  int // a read fails when this many bytes were read (-1: never)
	withN   bool
	fail    error
	sdErr   error
	sdAt    int
	failed  bool
	lastAt  int64
	lastNAt int64 // when a read last returned data
	r       *Run
}

func (c *tapConn) Read(b []byte) (int, error) {
	if c.fail != nil && c.failAt >= 0 && len(c.got) >= c.failAt {
		c.failed = true
		return 0, c.fail
	}
	if c.chop > 0 && len(b) > c.chop {
		b = b[:1+c.f.N(c.chop)]
	}
	if c.fail != nil && c.failAt >= 0 && len(b) > c.failAt-len(c.got) {
		b = b[:c.failAt-len(c.got)]
	}
	n, e := c.Conn.Read(b)
	c.got = append(c.got, b[:n]...)
	if n > 0 {
		c.lastNAt = c.r.Sim.Now()
	}
	if c.withN && e == nil && n > 0 && c.fail != nil && len(c.got) >= c.failAt {
		c.failed = true
		return n, c.fail
	}
	return n, e
}

func (c *tapConn) SetReadDeadline(t time.Time) error {
	if c.sdErr != nil && !c.failed {
		if c.sdAt--; c.sdAt < 0 && t.Unix() > 100 {
			c.failed = true
			return c.sdErr
		}
	}
	return c.Conn.SetReadDeadline(t)
}

func (r *Run) readLoopScenario(focus string) {
	g := r.Gen
	w := r.newWorld()
	s := r.Sim
	r.drawSched(false)
	s.MaxSwitch = 3_000_000
	env := s.NewEnvHost("remote", "10.0.0.2")
	cfg := s.DefaultNet()
	a, b := s.Pair(env, w.host, cfg, s.DefaultNet())

	bufSize := []int{1, 2, 7, 64, 1000, 16384}[g.N(6)]
	total := []int{0, 1, g.Range(1, 40), g.Range(1, 3000), g.Range(1, 60000)}[g.N(5)]
	if bufSize <= 2 {
		total = min(total, 400)
	} else if bufSize == 7 {
		total = min(total, 3000)
	}
	timeout := []int64{50 * ms, sec, 10 * sec, 120 * sec}[g.N(4)]
	data := make([]byte, total)
	fill(data, g.U64())
	cuts := genCuts(g, total, timeout/3)
	const (
		eFIN = iota
		eReset
		eSilent
		eRead
		eDeadline
		eOpen // the remote stays, the local side stops
	)
	ending := g.N(6)
	tc := &tapConn{Conn: b, f: r.Fault, failAt: -1, r: r}
	if g.Chance(1, 2) {
		tc.chop = []int{1, 5, 100}[g.N(3)]
		if total > 3000 {
			tc.chop = max(tc.chop, 100)
		}
	}
	injErr := []error{syscall.EIO, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, errors.New("broken")}[g.N(4)]
	switch ending {
	case eRead:
		tc.fail, tc.failAt, tc.withN = injErr, g.N(total+1), g.Chance(1, 2)
	case eDeadline:
		tc.sdErr, tc.sdAt = injErr, g.N(8)
	}
	finishAt := int64(-1) // when the stop is requested, by another task
	switch {
	case ending == eOpen:
		finishAt = int64(g.Small(1000)) * ms
	case focus == "C14" && g.Chance(2, 3) || g.Chance(1, 6):
		finishAt = int64(g.Small(3000)) * ms
		if g.Chance(1, 3) {
			finishAt = int64(g.N(5000)) * us
		}
	}
	twice := g.Chance(1, 6)
	deaf := focus == "C14" && g.Chance(1, 4) // the consumer stops consuming at some point
	deafAfter := g.N(6)
	holdMax := []int64{0, ms, timeout / 4}[g.N(3)]
	finishOnErr := g.Chance(2, 3)
	longHolds := 0 // the consumer takes longer than the timeout now and then
	if g.Chance(1, 5) {
		longHolds = g.Range(1, 3)
	}
	atOnce := twice && g.Chance(1, 2)

	var sentAt, endAt int64
	s.GoOn(env, "remote", func() {
		off := 0
		for _, c := range cuts {
			if c.gap > 0 {
				r.sleep(c.gap)
			}
			if off >= total {
				break
			}
			n := min(c.n, total-off)
			if _, e := a.Write(data[off : off+n]); e != nil {
				return
			}
			off += n
			sentAt = s.Now()
		}
		if off < total {
			if _, e := a.Write(data[off:]); e != nil {
				return
			}
			sentAt = s.Now()
		}
		if g.Chance(1, 2) {
			r.sleep(int64(g.N(300)) * ms * timeout / (2 * sec))
		}
		endAt = s.Now()
		switch ending {
		case eFIN:
			_ = a.Close()
		case eReset:
			a.Abort()
			s.Stats["fault.conn_reset"]++
		}
	})

	var got []byte
	var told []error
	var toldAt, readyAt int64
	runDone, finReq, finRet := false, int64(-1), int64(-1)
	var runDoneAt int64
	consDone, inReady, stopped := false, false, false // stopped: before anything was told
	body := func() {
		rl := gio.NewReadLoop(int64(bufSize), tc, time.Duration(timeout))
		rt.Go("run", func() { rl.Run(); runDone, runDoneAt = true, s.Now() })
		finish := func() {
			if finReq < 0 {
				finReq = s.Now()
				stopped = len(told) == 0
			}
			rl.Finish()
			if finRet < 0 {
				finRet = s.Now()
			}
		}
		if finishAt >= 0 {
			if atOnce { // two tasks want to stop it
				rt.Go("stopper2", func() {
					rt.TimeSleep(time.Duration(finishAt))
					finish()
				})
			}
			rt.Go("stopper", func() {
				rt.TimeSleep(time.Duration(finishAt))
				r.ev("stop requested")
				finish()
				if twice {
					finish()
				}
			})
		}
		chunks := 0
		endWait := int64(-1)
		for !r.bad() {
			if deaf && chunks >= deafAfter {
				break
			}
			var c []byte
			var e error
			var ok, ok2 bool
			tm := rt.NewTimer(time.Duration(200 * ms))
			var tv time.Time
			k := rt.Select(false, rt.CaseRecv(rl.ReadData(), &c, &ok), rt.CaseRecv(rl.ReadError(), &e, &ok2), rt.CaseRecv(tm.C, &tv, nil2()))
			tm.Stop()
			switch k {
			case 0:
				if !ok {
					consDone = true
					return
				}
				if len(told) > 0 {
					r.Fail("C13", "a chunk of %d bytes was delivered after the end was reported (%v)", len(c), told[0])
					return
				}
				if len(c) > bufSize {
					r.Fail("C13", "a chunk of %d bytes was delivered, the buffer has %d", len(c), bufSize)
				}
				chunks++
				cp := string(c)
				got = append(got, c...)
				if len(got) > total || string(got) != string(data[:len(got)]) {
					i := 0
					for i < len(got) && i < total && got[i] == data[i] {
						i++
					}
					r.Fail("C13", "delivered bytes differ from the received stream at byte %d (chunk %d, %d delivered of %d sent)", i, chunks, len(got), total)
					return
				}
				if longHolds > 0 && g.Chance(1, 3) {
					longHolds--
					rt.TimeSleep(time.Duration(timeout + int64(g.N(2000))*timeout/1000))
				} else if holdMax > 0 && g.Chance(1, 2) {
					rt.TimeSleep(time.Duration(g.N(int(holdMax/us)+1)) * time.Microsecond)
				} else if g.Chance(1, 2) {
					rt.Gosched()
				}
				if string(c) != cp {
					r.Fail("C13", "chunk %d changed before the consumer was ready for the next one", chunks)
					return
				}
				inReady = true
				rl.Ready()
				inReady = false
				readyAt = s.Now()
			case 1:
				if !ok2 {
					consDone = true
					return
				}
				told = append(told, e)
				r.ev("told: %v", e)
				if len(told) == 1 {
					toldAt = s.Now()
				} else {
					r.Fail("C13", "the end of the connection was reported %d times: %v, %v", len(told), told[0], e)
					return
				}
				endWait = s.Now() + 3*timeout + 5*sec
				if finishOnErr {
					finish()
				}
			case 2:
				if endWait >= 0 && s.Now() > endWait || finReq >= 0 && s.Now() > finReq+20*sec {
					consDone = true
					return
				}
			}
		}
		consDone = true
	}
	limit := gapSum(cuts) + 20*timeout + 200*sec + int64(total)*holdMax/int64(max(1, min(bufSize, 100)))*2
	limit += int64(total) * (holdMax + ms) // at worst every byte arrives and is held on its own
	over := func() bool {
		if r.bad() {
			return true
		}
		if !consDone {
			return false
		}
		return runDone || finReq < 0 && deaf
	}
	ok := w.comp(limit, body, over)
	r.Count["readloop_runs"]++
	r.Count["readloop_bytes"] += int64(len(got))
	if w.compDead("C13,C14") || r.bad() {
		return
	}
	if s.Overrun {
		r.Fail("C13,C14", "the connection reader runs without end")
		return
	}
	grace := sec + 2*s.StallTotal
	if inReady {
		r.Fail("C13,C14", "declaring readiness never returned")
		return
	}
	if finReq >= 0 && finRet < 0 {
		r.Fail("C14", "the stop request never returned")
		return
	}
	if finReq >= 0 && finRet > finReq+grace {
		r.Fail("C14", "the stop request took %.3fs", f(finRet-finReq))
	}
	if finReq >= 0 && (!runDone || runDoneAt > finReq+grace) {
		r.Fail("C14", "the reader's run did not end within %.1fs of the stop request", f(grace))
		return
	}
	if !ok {
		if ending == eOpen && finReq < 0 || deaf {
			return
		}
		w.compHung("C13,C14", "the reader or its consumer did not end")
		return
	}
	if deaf {
		return
	}
	// what the consumer was told
	if stopped {
		return
	}
	if len(told) == 0 {
		r.Fail("C13", "the consumer was not told how the connection ended (%s)", []string{"closed", "reset", "silent", "read error", "deadline error", "open"}[ending])
		return
	}
	e := told[0]
	var ne net.Error
	isTO := errors.As(e, &ne) && ne.Timeout() || errors.Is(e, os.ErrDeadlineExceeded)
	rcvd := tc.got
	if string(got) != string(rcvd) {
		r.Fail("C13", "the end (%v) was reported after %d bytes, %d had been received", e, len(got), len(rcvd))
		return
	}
	switch {
	case isTO && !errors.Is(e, injErr):
		last := tc.lastNAt
		if toldAt < last+timeout-10*ms {
			r.Fail("C13", "silence reported %.3fs after the last data, the timeout is %.3fs", f(toldAt-last), f(timeout))
		}
		if toldAt > max(last, readyAt)+timeout+grace {
			r.Fail("C13", "silence reported %.3fs after the consumer was ready, the timeout is %.3fs", f(toldAt-max(last, readyAt)), f(timeout))
		}
		if ending != eSilent && !(ending == eDeadline && !tc.failed) && ending != eOpen && endAt == 0 {
			// data was still coming in time: gaps are a third of the timeout at most
			if s.Now()-sentAt < timeout {
				r.Fail("C13", "silence reported although data kept coming")
			}
		}
	case ending == eFIN:
		if !errors.Is(e, io.EOF) {
			r.Fail("C13", "the remote end closed the connection, reported was %v", e)
		} else if len(got) != total {
			r.Fail("C13", "end of stream reported after %d of %d bytes", len(got), total)
		}
	case ending == eReset:
		if !errors.Is(e, syscall.ECONNRESET) {
			r.Fail("C13", "the connection was reset, reported was %v", e)
		}
	case ending == eRead || ending == eDeadline:
		if !errors.Is(e, injErr) {
			r.Fail("C13", "the connection failed with %v, reported was %v", injErr, e)
		}
	default:
		r.Fail("C13", "the connection was only silent, reported was %v", e)
	}
	_ = fmt.Sprint
}

func nil2() *bool { return new(bool) }
